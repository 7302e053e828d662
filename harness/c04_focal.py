"""C04: frames of the focal plane (spec/FocalGraph.tla, FocalTrace.tla)."""
import importlib, os, sys
import numpy as np
import yaml
from common import q as proj, REPO
from frames import call

DATA = os.path.join(REPO, 'py', 'desimeter', 'data')


def R3(al, be, ga):
    c, s = np.cos, np.sin
    rx = np.array([[1, 0, 0], [0, c(al), -s(al)], [0, s(al), c(al)]])
    ry = np.array([[c(be), 0, s(be)], [0, 1, 0], [-s(be), 0, c(be)]])
    rz = np.array([[c(ga), -s(ga), 0], [s(ga), c(ga), 0], [0, 0, 1]])
    return rz.dot(ry).dot(rx)


def data_dir(ck, k):
    """a data directory with its own petal alignments, and metrology rows in
    another order (configuration k; 0 is the one shipped)"""
    from astropy.table import Table
    if k == 0:
        al = yaml.safe_load(open(os.path.join(DATA, 'petal-alignments.yaml')))
        met = Table.read(os.path.join(DATA, 'fp-metrology.csv'))
        return None, al, met
    rng = ck.rng
    d = os.path.join(ck.work, 'data%d' % k)
    os.makedirs(d)
    al = {}
    for p in range(10):
        al[p] = {'Tx': round(rng.uniform(-2, 2), 4), 'Ty': round(rng.uniform(-2, 2), 4), 'Tz': round(rng.uniform(-2, 2), 4),
                 'alpha': round(rng.uniform(-.03, .03), 7), 'beta': round(rng.uniform(-.03, .03), 7),
                 'gamma': round(rng.uniform(-3.2, 3.2), 7)}
    with open(d + '/petal-alignments.yaml', 'w') as f:
        yaml.safe_dump(al, f)
    met = Table.read(os.path.join(DATA, 'fp-metrology.csv'))
    # turn every camera about its own centre and move it a little
    for p in range(10):
        ii = np.flatnonzero((met['DEVICE_TYPE'] == 'GFA') & (met['PETAL_LOC'] == p))
        a = np.radians(rng.choice([0, 90, 180, 270, rng.uniform(0, 360)]) - 0)
        x, y = np.array(met['X_FP'][ii]), np.array(met['Y_FP'][ii])
        cx, cy = x.mean(), y.mean()
        met['X_FP'][ii] = cx + np.cos(a) * (x - cx) - np.sin(a) * (y - cy) + rng.uniform(-1, 1)
        met['Y_FP'][ii] = cy + np.sin(a) * (x - cx) + np.cos(a) * (y - cy) + rng.uniform(-1, 1)
    order = list(range(len(met)))
    rng.shuffle(order)
    met = met[order]
    met.write(d + '/fp-metrology.csv')
    for f in ('init-fvc2fp.json', 'dm2pm.json'):
        os.symlink(os.path.join(DATA, f), os.path.join(d, f))
    return d, al, met


def run(ck):
    from astropy.table import Table
    rng = ck.rng
    r = ck.model('FocalGraph', workers=4, constants={'MaxLen': 4})
    walks = r.cases()
    rng.shuffle(walks)
    walks = [(w['start'], w['w']) for w in walks]
    lw = [(s, w + v) for (s, w), (s2, v) in zip(walks, walks[::-1]) if w[-1][1] == s2]
    walks = walks[:None if ck.thorough else 700] + lw[:None if ck.thorough else 150]
    nconf = 6 if ck.thorough else 3
    runs = []
    for k in range(nconf):
        d, al, met = data_dir(ck, k)
        if d is None:
            os.environ.pop('DESIMETER_DATA', None)
        else:
            os.environ['DESIMETER_DATA'] = d
        for m in ('transform.ptl2fp', 'transform.gfa2fp', 'transform.dm2pm', 'transform.fvc2fp', 'transform.tan2fp.raytracefit'):
            importlib.reload(importlib.import_module('desimeter.' + m))
        one_config(ck, al, met, walks[k::nconf] if not ck.thorough else walks, runs)
    os.environ.pop('DESIMETER_DATA', None)
    tables(ck)
    ck.cov['walks'] = len(walks)
    ck.sample(runs[0])
    ck.judge_runs('FocalTrace', runs, lambda e, c, rn: ('%s:%s' % (c, e.get('e')), {'event': e, 'run': rn}))
    ck.assumptions = ['points between 26 and 411 mm from the centre (the polynomials of xy2qs are only claimed there)']


def one_config(ck, al, met, walks, runs):
    from astropy.table import Table
    import desimeter.transform.ptl2fp as P
    import desimeter.transform.gfa2fp as G
    import desimeter.transform.xy2qs as Q
    import desimeter.transform.dm2pm as DP
    import desimeter.transform.fvc2fp as F
    import desimeter.transform.tan2fp.raytracefit as RT
    import desimeter.transform.tan2fp.echo22 as EC
    from desimeter import io
    rng = ck.rng
    lenses = [F.read_jsonfile(os.path.join(DATA, f)) for f in
              ('init-fvc2fp.json', 'canon-lens-fvc2fp.json', 'single-lens-fvc2fp.json')]
    pm = DP.DM2PM.read(io.dm2pm_filename())
    COMPS = {'fp': 3, 'ptl': 3}
    SC = {'fp': 1e6, 'ptl': 1e6, 'gfa': 1e4, 'fvc': 1e5, 'tan': 1e10, 'qs': 1e6, 'uv': 1e6, 'pm': 1e6, 'echo': 1e10}
    COST = {'xy2qs': 900, 'qs2xy': 900, 'xy2uv': 900, 'uv2xy': 900, 'dm2pm': 60, 'pm2dm': 60, 'fp2echo': 700, 'echo2fp': 700}
    SHAPES = {'ptl2fp': 'ALTS', 'fp2ptl': 'ALTS', 'gfa2fp': 'AS', 'fp2gfa': 'AS', 'xy2qs': 'ALTS', 'qs2xy': 'AS',
              'xy2uv': 'ALTS', 'uv2xy': 'AS', 'echo2fp': 'AS', 'fp2echo': 'AS'}
    KIND = {'A': 'array', 'L': 'list', 'T': 'tuple', 'S': 'scalar'}
    n = 4

    def fam(s):
        return s.rstrip('ABC')

    def placed(petal, xyz):
        p = al[petal]
        return R3(p['alpha'], p['beta'], p['gamma']).dot(xyz) + np.array([p['Tx'], p['Ty'], p['Tz']])[:, None]

    def unplaced(petal, xyz):
        p = al[petal]
        return R3(p['alpha'], p['beta'], p['gamma']).T.dot(xyz - np.array([p['Tx'], p['Ty'], p['Tz']])[:, None])

    for wk in walks:
        start, names = wk
        petals = {'A': rng.randrange(10), 'B': rng.randrange(10), 'C': rng.randrange(10)}
        gfas = {'A': rng.randrange(10), 'B': rng.randrange(10)}
        lens = {'A': rng.choice(lenses), 'B': rng.choice(lenses)}
        adc = {'A': [rng.uniform(0, 360), rng.uniform(0, 360)], 'B': [rng.choice([0., 90., rng.uniform(-360, 720)]), rng.choice([0., 90., rng.uniform(-360, 720)])]}
        rad = np.array([rng.uniform(40, 400) for _ in range(n)])
        ang = np.array([rng.uniform(-np.pi, np.pi) for _ in range(n)])
        z = np.array([rng.uniform(-20, 2) for _ in range(n)])
        xyz = np.vstack([rad * np.cos(ang), rad * np.sin(ang), z])
        f = fam(start)
        tag = start[-1]
        if f == 'fp':
            cur = list(xyz)
        elif f == 'ptl':
            cur = list(unplaced(petals[tag], xyz))
        elif f == 'tan':
            cur = [xyz[0] * 7.1e-5, xyz[1] * 7.1e-5]
        elif f == 'fvc':
            ln = lens[tag]
            a, b = -xyz[0] / 420, xyz[1] / 420
            cur = [3000 + 2700 * a, 3000 + 2700 * b]
        zkeep = z

        def val(s, comps, i):
            return [proj(c[i], SC[fam(s)]) for c in comps]
        ev = [[{'op': 'start', 'sys': start, 'v': val(start, cur, i)}] for i in range(n)]
        sysname = start
        tol = 4
        for name, dest in names:
            fam_from, fam_to = fam(sysname), fam(dest)
            tag = (sysname if fam_from != 'fp' else dest)[-1]
            tol += COST.get(name, 2)
            kind = KIND[rng.choice(SHAPES.get(name, 'A'))]
            if kind == 'tuple':
                kind = 'list'
            extra = {}
            args = cur
            try:
                if name in ('ptl2fp', 'fp2ptl'):
                    p = petals[tag]
                    if name == 'fp2ptl' and len(cur) == 2:
                        args = [cur[0], cur[1], zkeep]
                    fn = P.ptl2fp if name == 'ptl2fp' else P.fp2ptl
                    out, pure = call(lambda x, y, zz: fn(p, x, y, zz), args, {}, kind)
                    w = (placed if name == 'ptl2fp' else unplaced)(p, np.vstack(args))
                    extra['want'] = w
                    if name == 'fp2ptl':
                        zkeep = np.array(args[2])
                elif name == 'apply_ptl2fp':
                    # a table with rows of several petals, ours anywhere among them
                    m = n + rng.randrange(1, 12)
                    pl = np.array([rng.randrange(10) for _ in range(m)])
                    co = np.array([[rng.uniform(-300, 300) for _ in range(3)] for _ in range(m)]).T
                    rows = rng.sample(range(m), n)
                    pl[rows] = petals[tag]
                    for c in range(3):
                        co[c][rows] = cur[c]
                    t = Table({'PETAL_LOC': pl, 'X_PTL': co[0], 'Y_PTL': co[1], 'Z_PTL': co[2]})
                    keep = t.copy()
                    o = P.apply_ptl2fp(t)
                    pure = all(np.array_equal(t[c], keep[c]) for c in keep.colnames)
                    out = [np.array(o[c])[rows] for c in ('X_FP', 'Y_FP', 'Z_FP')]
                    extra['want'] = placed(petals[tag], np.vstack(cur))
                    others = [j for j in range(m) if j not in rows]
                    for j in others:   # rows of other petals use their own alignment
                        w = placed(int(pl[j]), co[:, j][:, None])
                        runs.append([{'op': 'start', 'sys': 'ptl%d' % pl[j], 'v': [proj(v, 1e6) for v in co[:, j]]},
                                     {'op': 'step', 'e': name, 'sys': 'fp', 'v': [proj(o[c][j], 1e6) for c in ('X_FP', 'Y_FP', 'Z_FP')],
                                      'tol': [5, 5, 5], 'mod': [0, 0, 0], 'want': [proj(v, 1e6) for v in w[:, 0]], 'wtol': 5,
                                      'pure': pure}])
                elif name in ('gfa2fp', 'fp2gfa'):
                    g = gfas[tag]
                    fn = G.gfa2fp if name == 'gfa2fp' else G.fp2gfa
                    out, pure = call(lambda x, y: fn(g, x, y), cur[:2], {}, kind)
                elif name in ('fvc2fp', 'fp2fvc'):
                    fn = getattr(lens[tag], name)
                    out, pure = call(fn, cur[:2], {}, 'array')
                elif name in ('tan2fp', 'fp2tan'):
                    fn = getattr(RT, name)
                    a1, a2 = adc[tag]
                    out, pure = call(lambda x, y: fn(x, y, a1, a2), cur[:2], {}, 'array')
                    # turning the correctors by an angle turns the image by that angle
                    ph = rng.choice([30., 360., -720., rng.uniform(-360, 360)])
                    c, s = np.cos(np.radians(ph)), np.sin(np.radians(ph))
                    u, v = fn(c * cur[0] - s * cur[1], s * cur[0] + c * cur[1], a1 + ph, a2 + ph)
                    extra['want'] = [c * u + s * v, -s * u + c * v]
                elif name in ('qs2xy', 'xy2qs', 'xy2uv', 'uv2xy'):
                    out, pure = call(getattr(Q, name), cur[:2], {}, kind)
                elif name in ('dm2pm', 'pm2dm'):
                    out, pure = call(getattr(pm, name), cur[:2], {}, 'array')
                else:
                    fn = EC.tan2fp if name == 'echo2fp' else EC.fp2tan
                    out, pure = call(fn, cur[:2], {}, kind)
            except Exception as exc:
                for i in range(n):
                    ev[i].append({'op': 'step', 'e': name, 'exc': type(exc).__name__, 'msg': str(exc)[:80], 'kind': kind})
                break
            if fam_to == 'fp' and len(out) == 2:
                out = list(out) + [zkeep]
            rigid = None
            if name in ('ptl2fp', 'fp2ptl', 'apply_ptl2fp'):
                def dist(cs):
                    cs = np.vstack(cs)
                    return [proj(np.linalg.norm(cs[:, i] - cs[:, (i + 1) % n]), 1e6) for i in range(n)]
                rigid = [dist(args[:3]), dist(out)]
            nc = len(out)
            mod = [360000000, 0] if fam_to == 'qs' else [0] * nc
            t = [3 * tol + 5] * nc if fam_to == 'qs' else [2 * tol] * nc
            for i in range(n):
                e = {'op': 'step', 'e': name, 'sys': dest, 'v': val(dest, out, i), 'tol': t, 'mod': mod, 'pure': pure, 'kind': kind}
                if 'want' in extra:
                    e['want'] = [proj(c[i], SC[fam_to]) for c in extra['want']]
                    e['wtol'] = 6
                    if fam_to == 'fp' and len(e['want']) == 2:
                        e['want'].append(e['v'][2])
                if rigid is not None and i == 0:
                    e['rigid'] = rigid
                ev[i].append(e)
            cur = [np.array(c, float) for c in out]
            sysname = dest
        runs += ev
    # a camera's corners are where metrology puts them, moved along the
    # camera's normal by the 2.23 mm between the detector and the focal surface
    corners = np.array([[0, 0], [2047, 0], [2047, 1031], [0, 1031]], float)
    for p in rng.sample(range(10), 10):
        ii = [int(np.flatnonzero((met['DEVICE_TYPE'] == 'GFA') & (met['PETAL_LOC'] == p) & (met['PINHOLE_ID'] == k))[0]) for k in (1, 2, 3, 4)]
        c = np.array([[met[a][i] for a in ('X_FP', 'Y_FP', 'Z_FP')] for i in ii])
        u, v = c[1] - c[0], c[2] - c[1]
        nv = np.cross(u, v)
        want = c[:, :2] + 2.23 * nv[:2] / nv[2]
        back = [G.fp2gfa(p, *w) for w in want]
        got = G.gfa2fp(p, corners[:, 0], corners[:, 1])
        for k in range(4):
            runs.append([{'op': 'start', 'sys': 'gfa', 'v': [proj(x, 1e4) for x in corners[k]]},
                         {'op': 'step', 'e': 'gfa_corner', 'sys': 'fp', 'v': [proj(got[0][k], 1e6), proj(got[1][k], 1e6)],
                          'tol': [0, 0], 'mod': [0, 0], 'want': [proj(x, 1e6) for x in want[k]], 'wtol': 400, 'pure': True},
                         {'op': 'step', 'e': 'gfa_corner', 'sys': 'gfa', 'v': [proj(x, 1e4) for x in back[k]],
                          'tol': [300, 300], 'mod': [0, 0], 'pure': True}])
    # the dome shaped surface: (q,s) and (u,v) show the same point, q is the
    # polar angle, and s follows the table of the surface (accuracy 0.5 um)
    for _ in range(60):
        rr, a = rng.uniform(26, 411), rng.uniform(-180, 180)
        x, y = rr * np.cos(np.radians(a)), rr * np.sin(np.radians(a))
        s_tab = np.interp(rr, TAB['R'], TAB['S'])
        qq, ss = Q.xy2qs(x, y)
        uu, vv = Q.xy2uv(x, y)
        runs.append([{'op': 'start', 'sys': 'fp', 'v': [proj(x, 1e6), proj(y, 1e6)]},
                     {'op': 'step', 'e': 'surface_s', 'sys': 's', 'v': [proj(ss, 1e6)], 'tol': [0], 'mod': [0],
                      'want': [proj(s_tab, 1e6)], 'wtol': 900, 'pure': True},
                     {'op': 'step', 'e': 'surface_q', 'sys': 'q', 'v': [proj((qq - a + 540) % 360, 1e6)], 'tol': [0], 'mod': [0],
                      'want': [180000000], 'wtol': 5, 'pure': True},
                     {'op': 'step', 'e': 'surface_uv', 'sys': 'uv', 'v': [proj(uu, 1e6), proj(vv, 1e6)], 'tol': [0, 0], 'mod': [0, 0],
                      'want': [proj(ss * np.cos(np.radians(a)), 1e6), proj(ss * np.sin(np.radians(a)), 1e6)], 'wtol': 8, 'pure': True}])
    # the tangent plane transform follows the ray trace for every corrector
    # setting, whatever common turn of the two correctors
    for j in rng.sample(range(len(RAY)), 150):
        a1, a2, xt, yt, xf, yf = RAY[j]
        ph = rng.choice([0., 360., -360., rng.uniform(-360, 360)])
        p1 = ph + rng.choice([0., 360.])
        c, s = np.cos(np.radians(ph)), np.sin(np.radians(ph))
        xw, yw = c * xf - s * yf, s * xf + c * yf
        got = RT.tan2fp(np.array([c * xt - s * yt]), np.array([s * xt + c * yt]), a1 + p1, a2 + ph)
        back = RT.fp2tan(np.array([xw]), np.array([yw]), a1 + p1, a2 + ph)
        runs.append([{'op': 'start', 'sys': 'tan', 'v': [proj(c * xt - s * yt, 1e10), proj(s * xt + c * yt, 1e10)]},
                     {'op': 'step', 'e': 'raytrace', 'sys': 'fp', 'v': [proj(got[0][0], 1e6), proj(got[1][0], 1e6)], 'tol': [0, 0], 'mod': [0, 0],
                      'want': [proj(xw, 1e6), proj(yw, 1e6)], 'wtol': 12000, 'pure': True},
                     {'op': 'step', 'e': 'raytrace_inverse', 'sys': 'tan', 'v': [proj(back[0][0], 1e10), proj(back[1][0], 1e10)],
                      'tol': [12000, 12000], 'mod': [0, 0], 'pure': True}])
    # petal placement without a height uses the height of the focal surface
    for _ in range(40):
        p = rng.randrange(10)
        rr, a = rng.uniform(0, 411), rng.uniform(-180, 180)
        x, y = rr * np.cos(np.radians(a)), rr * np.sin(np.radians(a))
        zz = np.interp(rr, TAB['R'], TAB['Z'])
        for nm, fn, w in (('ptl2fp', P.ptl2fp, placed), ('fp2ptl', P.fp2ptl, unplaced)):
            want = w(p, np.array([[x], [y], [zz]]))[:, 0]
            got = [np.asarray(v).reshape(-1)[0] for v in fn(p, x, y)]
            runs.append([{'op': 'start', 'sys': 'a', 'v': [0]},
                         {'op': 'step', 'e': nm + '_noz', 'sys': 'b', 'v': [proj(v, 1e6) for v in got], 'tol': [0] * 3, 'mod': [0] * 3,
                          'want': [proj(v, 1e6) for v in want], 'wtol': 6, 'pure': True}])


def read_tab():
    rows = [l.strip().split(',') for l in open(os.path.join(DATA, 'focal_surface_lookup.csv')) if not l.startswith('#')]
    h = rows[0]
    a = np.array([[float(v) for v in r[:4]] for r in rows[1:] if r[0]])
    return {k: a[:, i] for i, k in enumerate(h[:4])}


TAB = read_tab()
RAY = [tuple(float(v) for v in l.split(',')[:6]) for l in open(os.path.join(DATA, 'raytrace-tan2fp-4957-v18.csv')).readlines()[1:]]


def tables(ck):
    """radius, surface distance, height and nutation of the focal surface:
    walks between them come back, and agree with the table at its nodes"""
    from desimeter.transform import rszn_lookups as L
    rng = ck.rng
    r = ck.model('LookupGraph', workers=4, constants={'MaxLen': 4})
    SC = {'r': 1e6, 's': 1e6, 'z': 1e7, 'n': 1e7}
    runs = []
    for wk in r.cases():
        node = rng.random() < .5
        rr = np.array([float(rng.randint(5, 410)) if node else rng.uniform(5, 410) for _ in range(3)])
        want = {k: np.interp(rr, TAB['R'], TAB[k.upper()]) for k in 'rszn'}
        s = wk['start']
        cur = want[s]
        ev = [[{'op': 'start', 'sys': s, 'v': [proj(cur[i], SC[s])]}] for i in range(3)]
        for name in wk['w']:
            kind = rng.choice(['array', 'list', 'tuple', 'scalar'])
            d = name[-1]
            try:
                (cur,), pure = call(lambda v: (getattr(L, name)(v),), [cur], {}, kind)
            except Exception as exc:
                for i in range(3):
                    ev[i].append({'op': 'step', 'e': name, 'exc': type(exc).__name__, 'msg': str(exc)[:80], 'kind': kind})
                break
            for i in range(3):
                e = {'op': 'step', 'e': name, 'sys': d, 'v': [proj(cur[i], SC[d])], 'tol': [20000], 'mod': [0], 'pure': pure, 'kind': kind}
                e['tol'] = [LTOL[d]]
                e['want'] = [proj(want[d][i], SC[d])]
                e['wtol'] = LTOL[d]
                ev[i].append(e)
        runs += ev
    ck.judge_runs('FocalTrace', runs, lambda e, c, rn: ('%s:%s' % (c, e.get('e')), {'event': e, 'run': rn}))


LTOL = {'r': 8, 's': 8, 'z': 40, 'n': 40}
