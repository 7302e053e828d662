"""C13: the FVC image program (spec/Proc.tla, ProcModel.tla, ProcCache.tla, ProcTrace.tla)."""
import glob, json, os, re, runpy, shutil, sys
import numpy as np
from multiprocessing import Pool
from common import BIN, REPO, q
from c23_spots import unit, quiet
from c24_average import smooth

DATA = os.path.join(REPO, 'py', 'desimeter', 'data')
W = None


class World:
    """metrology, lenses and the pinhole patterns that can be told apart"""

    def __init__(self, work):
        from common import metrology
        from desimeter.transform.fvc2fp import FVC2FP
        import c08_fiducials
        self.met = metrology()
        self.pos = np.flatnonzero(self.met['DEVICE_TYPE'] == 'POS')
        # the sky monitor has fibers too
        self.may = np.flatnonzero((self.met['DEVICE_TYPE'] == 'POS') | (self.met['DEVICE_TYPE'] == 'ETC'))
        self.pin = np.flatnonzero((self.met['DEVICE_TYPE'] == 'FIF') | (self.met['DEVICE_TYPE'] == 'GIF'))
        self.loc = np.array(self.met['LOCATION'])
        # one fiducial has five pinholes, four of which are looked for
        self.pin = self.pin[[np.sum(self.loc[self.pin] == self.loc[i]) == 4 for i in self.pin]]
        self.pid = np.array(self.met['PINHOLE_ID'])
        self.x, self.y = np.array(self.met['X_FP'], float), np.array(self.met['Y_FP'], float)
        self.fids = np.unique(self.loc[self.pin])
        w = c08_fiducials.World()
        x, y = w.pix['init']
        self.alike = set(w.alike)
        for l in w.locs:
            ii = np.flatnonzero(w.loc == l)
            dx = np.abs(x[ii][:, None] - x[ii][None, :])[np.triu_indices(len(ii), 1)]
            if dx.min() < .2:
                self.alike.add(int(l))
        self.dirs = {'full': DATA, 'small': os.path.join(work, 'small')}
        self.size = {'full': 6000, 'small': 2400}

    def lens(self, kind):
        from desimeter.transform.fvc2fp import FVC2FP
        return FVC2FP.read_jsonfile(os.path.join(self.dirs[kind], 'init-fvc2fp.json'))


def world(work):
    global W
    if W is None:
        import desimeter.log
        desimeter.log.get_logger().setLevel('CRITICAL')
        W = World(work)
    return W


def smaller(work):
    """a data directory whose camera sees the middle of the focal plane only"""
    d = os.path.join(work, 'small')
    os.makedirs(d)
    for f in os.listdir(DATA):
        if f != 'init-fvc2fp.json':
            os.symlink(os.path.join(DATA, f), os.path.join(d, f))
    p = json.load(open(os.path.join(DATA, 'init-fvc2fp.json')))
    p.update(xfvc_offset=1200., yfvc_offset=1200.)
    json.dump(p, open(os.path.join(d, 'init-fvc2fp.json'), 'w'))


def program(argv, data):
    """exit code of the program"""
    old = os.environ.get('DESIMETER_DATA')
    if data == DATA:
        os.environ.pop('DESIMETER_DATA', None)
    else:
        os.environ['DESIMETER_DATA'] = data
    av = sys.argv
    sys.argv = ['desi_fvc_proc'] + [str(a) for a in argv]
    try:
        runpy.run_path(os.path.join(BIN, 'desi_fvc_proc'), run_name='__main__')
        return 0
    except SystemExit as e:
        return 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Exception:
        return 99
    finally:
        sys.argv = av
        os.environ.pop('DESIMETER_DATA', None)
        if old is not None:
            os.environ['DESIMETER_DATA'] = old


def perturbed(t, rs, big=False):
    """the lens as it is during an exposure"""
    k = 30 if big else 1
    t.rotation += rs.uniform(-8e-4, 8e-4) * k
    t.scale *= 1 + rs.uniform(-2e-4, 2e-4) * k
    t.offset_x += rs.uniform(-2e-3, 2e-3) * k
    t.offset_y += rs.uniform(-2e-3, 2e-3) * k
    return t


class Scene:
    def __init__(self, w, rs, truth, nfid, nfib, size, petals=None, around=2.5):
        pets = petals or ([int(p) for p in rs.permutation(10)[:3]] if size == 6000 else range(10))
        px, py = truth.fp2fvc(w.x, w.y)
        seen = (np.minimum(px, py) > 40) & (np.maximum(px, py) < size - 40)
        pos = w.pos[np.isin(w.loc[w.pos] // 1000, pets) & seen[w.pos]]
        self.fib = pos[rs.permutation(len(pos))[:nfib]]
        r, a = around * np.sqrt(rs.random(len(self.fib))), rs.uniform(0, 2 * np.pi, len(self.fib))
        self.ex, self.ey = w.x[self.fib] + r * np.cos(a), w.y[self.fib] + r * np.sin(a)
        f = rs.permutation(np.unique(w.loc[w.pin[seen[w.pin]]]))[:nfid]
        self.pins = w.pin[np.isin(w.loc[w.pin], f)]
        self.truth = truth
        # pinholes have no fiber among them
        gap = np.array([np.hypot(w.x[self.pins] - x, w.y[self.pins] - y).min(initial=99.) for x, y in zip(self.ex, self.ey)])
        self.fib, self.ex, self.ey = self.fib[gap > 3.], self.ex[gap > 3.], self.ey[gap > 3.]


# ---------------------------------------------------------------- outcome of runs
def image(rs, n0, n1, spots, ped=1000., noise=4.):
    im = rs.normal(ped, noise, (n0, n1))
    for x, y, c in spots:
        s, v = unit(n0, n1, x, y, 1., 0)
        im[s] += c * v
    return im


def frame_spots(w, rs, has, match, kind):
    """spots of one frame (x, y, counts)"""
    if has == 'none':
        return np.zeros((0, 3))
    if not match:
        m = {'few': 5, 'full': 14}[has]
        p = []
        while len(p) < m:
            v = rs.uniform(8, 100, 2)
            if all(np.hypot(*(v - o)) > 12 for o in p):
                p.append(v)
        p = np.array(p)
        return np.column_stack([p[:, 0] * 1.3, p[:, 1], rs.uniform(3e4, 6e4, m)])
    t = perturbed(w.lens(kind), rs)
    s = Scene(w, rs, t, *((int(rs.integers(0, 3)), 25) if has == 'few' else (int(rs.integers(12, 25)), 110)), w.size[kind])
    x, y = t.fp2fvc(np.append(s.ex, w.x[s.pins]), np.append(s.ey, w.y[s.pins]))
    v = np.column_stack([x, y, rs.uniform(3e4, 9e4, len(x))])
    return v[rs.permutation(len(v))]


def outcome(a):
    n, seed, c, work = a
    rs = np.random.default_rng([seed, 13, n])
    np.random.seed(n)
    w = world(work)
    from astropy.table import Table
    from astropy.io import fits
    d = os.path.join(work, 'o%d' % n)
    os.makedirs(d)
    fit = c['in'] in ('one', 'many')
    kind = 'small' if fit else 'full'
    F = [frame_spots(w, rs, f['has'], not c['nomatch'], kind) for f in c['frames']]
    argv = []
    if c['in'] in ('csv', 'other'):
        inp = os.path.join(d, 'in' + ('.csv' if c['in'] == 'csv' else str(rs.choice(['.txt', '.jpg', '', '.ecsv']))))
        Table({'XPIX': F[0][:, 0], 'YPIX': F[0][:, 1], 'COUNTS': F[0][:, 2]}).write(inp, format='ascii.csv')
        counts = [len(f) for f in F]
    else:
        n0, n1 = (120, 150) if c['nomatch'] else (w.size['small'],) * 2
        dt = str(rs.choice(['u2', 'i4', 'f4', 'f8']))
        ims = [image(rs, n0, n1, f) for f in F]
        bias = str(rs.choice(['none', 'none', 'given', 'default', 'off'])) if c['nomatch'] else 'none'
        data = w.dirs['small']
        if bias != 'none':
            # what is in the bias is not a spot
            B = image(rs, n0, n1, [(n1 - 6.3, n0 - 7.2, 50000.)], 0., 0.)
            data = os.path.join(d, 'data')
            os.makedirs(data)
            for f in os.listdir(w.dirs['small']):
                os.symlink(os.path.join(w.dirs['small'], f), os.path.join(data, f))
            name = os.path.join(data if bias != 'given' else d, 'bias.fits')
            fits.writeto(name, B.astype('f4'))
            if bias == 'off':
                argv += ['--no-bias']
            else:
                ims = [i + B for i in ims]
                if bias == 'given':
                    argv += ['--bias', name]
        ims = [(np.round(i) if dt[0] in 'ui' else i).clip(0, 60000).astype(dt) for i in ims]
        inp = os.path.join(d, 'in.fits')
        if c['in'] == 'one':
            fits.writeto(inp, ims[0])
        else:
            z = dt[0] in 'ui' and rs.random() < .3
            H = [fits.PrimaryHDU()]
            for f, i in zip(c['frames'], ims):
                nm = 'F%04d' % f['name'] if f['name'] < 99 else str(rs.choice(['FVC', 'TEST']))
                H.append(fits.CompImageHDU(i, name=nm) if z else fits.ImageHDU(i, name=nm))
            inp += '.fz' if z else ''
            fits.HDUList(H).writeto(inp)
        counts = [len(f) for f in F]
    limit = 60 if not c['nomatch'] else 9
    # limits may be just the number of spots
    few = max([len(F[k]) for k, f in enumerate(c['frames']) if f['has'] != 'full'] + [limit - 8])
    full = min([len(F[k]) for k, f in enumerate(c['frames']) if f['has'] == 'full'] + [limit + 8])
    least, most = int(rs.choice([full, limit, few + 1])), int(rs.choice([few, limit, full - 1]))
    if c['sel'] == 'sequence':
        argv += ['--sequence']
    elif c['sel'] == 'last':
        argv += ['--extname', 'last']
    elif c['sel'] == 'named':
        argv += ['--extname', 'F%04d' % c['named']]
    argv += ['--nomatch'] * c['nomatch'] + ['--min-spots', least] * c['min'] + ['--max-spots', most] * c['max'] + ['--threshold', 500] * c['thr']
    out = os.path.join(d, 'out')
    os.makedirs(out)
    code = program(['-i', inp, '-o', os.path.join(out, 'x.' + c['out'])] + argv, data if fit else DATA)
    tables, odd, twice = [], 0, 0
    for p in sorted(glob.glob(os.path.join(out, '*'))):
        m = re.fullmatch(r'x(-[fF](\d{4}))?\.csv', os.path.basename(p))
        if not m:
            odd += 1
            continue
        T = Table.read(p, format='csv')
        src = 0
        for k, f in enumerate(F):
            if len(T) == len(f) and (len(f) == 0 or all(np.min(np.hypot(f[:, 0] - r['XPIX'], f[:, 1] - r['YPIX'])) < .2 for r in T)):
                src = k + 1
                if len(f) or c['frames'][k]['has'] == 'none':
                    break
        tables.append([int(m.group(2)) if m.group(2) else -1, src])
    shutil.rmtree(d)
    return [dict(c, op='run', case=n, code=code, tables=tables, odd=odd)]


# ---------------------------------------------------------------- content of tables
def content(a):
    n, seed, work = a
    rs = np.random.default_rng([seed, 131, n])
    np.random.seed(n)
    w = world(work)
    from astropy.table import Table, vstack
    from astropy.io import fits
    from desimeter.transform.fvc2fp import FVC2FP
    from desimeter.transform.xy2qs import xy2qs
    from desimeter.fieldmodel import FieldModel
    d = os.path.join(work, 'c%d' % n)
    os.makedirs(d)
    kind = 'small' if n % 12 == 0 else 'full'
    base = w.lens(kind)
    how = ['metrology', 'X_FP', 'X_FP_EXP', 'EXP_Q_0', 'X_FP', 'EXP_Q_0'][n % 6]
    far = n % 5 == 1 and kind == 'full'
    fixed = n % 7 == 3
    zb = not fixed and n % 9 == 4
    truth = perturbed(w.lens(kind), rs, far)
    if fixed:
        truth.scale, truth.rotation = base.scale, base.rotation
    turb = [None, '--turbulence-correction-with-pol', '--turbulence-correction'][n % 3] if how != 'metrology' and n % 4 == 0 else None
    sc = Scene(w, rs, truth, int(rs.integers(20, 116)) if zb else int(rs.choice([12, 30, 80])), 240 if kind == 'full' else 130, w.size[kind], around=2.5,
               petals=[int(rs.integers(10))] if turb else None)
    m = len(sc.fib)
    argv = []
    if how == 'metrology':
        dx, dy = sc.ex - w.x[sc.fib], sc.ey - w.y[sc.fib]
    elif turb:
        dx, dy = smooth(rs, sc.ex, sc.ey, .04, 250.)
        dx, dy = dx + rs.normal(0, .001, m), dy + rs.normal(0, .001, m)
    else:
        dx, dy = rs.uniform(-.2, .2, (2, m))
    fx, fy = (w.x[sc.fib], w.y[sc.fib]) if how == 'metrology' else (sc.ex, sc.ey)
    fx, fy = fx + dx, fy + dy
    seen = np.ones(m, bool)
    known = np.ones(m, bool)
    stray = np.zeros((0, 2))
    dark, dim = np.zeros((2, len(sc.pins)), bool)
    dist = 7.
    if rs.random() < .7:
        # some fibers without light, some without expectation, light from elsewhere
        dist = float(rs.choice([1., .5, 2.])) if how != 'metrology' else 3.
        seen = rs.random(m) > .1
        if how != 'metrology':
            known = rs.random(m) > .1
        allx = np.concatenate([fx, sc.ex, w.x[w.may] if how == 'metrology' else [], w.x[w.pin]])
        ally = np.concatenate([fy, sc.ey, w.y[w.may] if how == 'metrology' else [], w.y[w.pin]])
        s = []
        for _ in range(400):
            p = rs.uniform(-300, 300, 2) if kind == 'full' else rs.uniform(-120, 120, 2)
            if len(s) < 12 and np.hypot(*p) < 400 and np.min(np.hypot(allx - p[0], ally - p[1])) > dist + 1. and all(np.hypot(*(p - o)) > 3 for o in s):
                s.append(p)
        stray = np.array(s).reshape(-1, 2)
        argv += ['--max-match-distance', dist]
        # fiducials with a dark pinhole are not recognised
        near = np.column_stack([np.concatenate([fx, sc.ex, w.x[w.may] if how == 'metrology' else []]), np.concatenate([fy, sc.ey, w.y[w.may] if how == 'metrology' else []])])
        for l in rs.permutation(np.unique(w.loc[sc.pins]))[:max(0, len(np.unique(w.loc[sc.pins])) // 3 - 4)]:
            k = np.flatnonzero(w.loc[sc.pins] == l)
            gap = min(np.hypot(near[:, 0] - w.x[sc.pins[i]], near[:, 1] - w.y[sc.pins[i]]).min() for i in k)
            if gap > dist + 1.:
                dark[rs.permutation(k)[0]] = True
                dim[k] = True
    # the spots
    lit = np.flatnonzero(~dark)
    x = np.concatenate([fx[seen], w.x[sc.pins[lit]], stray[:, 0]])
    y = np.concatenate([fy[seen], w.y[sc.pins[lit]], stray[:, 1]])
    own = np.concatenate([np.flatnonzero(seen), lit, np.arange(len(stray))]).astype(int)
    cls = np.array(['fiber'] * seen.sum() + ['stray' if v else 'pin' for v in dim[lit]] + ['stray'] * len(stray))
    px, py = truth.fp2fvc(x, y)
    p = rs.permutation(len(x))
    x, y, px, py, own, cls = x[p], y[p], px[p], py[p], own[p], cls[p]
    counts = rs.uniform(3e4, 9e4, len(x)).round(1)
    inp = os.path.join(d, 'in.csv')
    spots = Table({'COUNTS': counts, 'XPIX': px, 'YPIX': py, 'XERR': np.full(len(x), .01)})
    ifile = os.path.join(d, 'in.fits') if kind == 'small' else inp
    if kind == 'small':
        fits.writeto(ifile, image(rs, 2400, 2400, zip(px, py, counts)).astype('f4'))
    else:
        spots.write(inp)
    # expectation
    epath = None
    if how != 'metrology':
        rows = rs.permutation(m)
        E = Table()
        style = n // 6 % 3
        loc = w.loc[sc.fib]
        if style != 1:
            E['LOCATION'] = loc
        if style != 2:
            E['PETAL_LOC'], E['DEVICE_LOC'] = loc // 1000, loc % 1000
        if n % 2:
            E['DEVICE_ID'] = w.met['DEVICE_ID'][sc.fib]
        E['FIBER'] = np.arange(m)
        ex, ey = np.where(known, sc.ex, np.nan), np.where(known, sc.ey, np.nan)
        if how == 'EXP_Q_0':
            E['EXP_Q_0'], E['EXP_S_0'] = xy2qs(ex, ey)
        else:
            E[how], E[how.replace('X', 'Y', 1)] = ex, ey
        if how != 'EXP_Q_0' or n % 4 == 1:
            E = E[known]
            rows = rs.permutation(len(E))
        E = E[rows]
        if style == 0 and rs.random() < .5:
            # the table has the fiducials too
            E['PINHOLE_ID'] = 0
            k = sc.pins
            X = Table({'LOCATION': w.loc[k], 'PETAL_LOC': w.loc[k] // 1000, 'DEVICE_LOC': w.loc[k] % 1000, 'PINHOLE_ID': w.pid[k], 'FIBER': np.full(len(k), -1)})
            if how == 'EXP_Q_0':
                X['EXP_Q_0'], X['EXP_S_0'] = xy2qs(w.x[k], w.y[k])
            else:
                X[how], X[how.replace('X', 'Y', 1)] = w.x[k], w.y[k]
            if 'DEVICE_ID' in E.colnames:
                X['DEVICE_ID'] = w.met['DEVICE_ID'][k]
            E = vstack([X, E])[rs.permutation(len(E) + len(X))]
        epath = os.path.join(d, 'expected' + ('.fits' if n % 2 else '.csv'))
        if n % 2 and n % 4 == 3:
            # the table asked for is not the first
            fits.HDUList([fits.PrimaryHDU(), fits.table_to_hdu(Table({'LOCATION': [1, 2], 'X_FP': [0., 9.], 'Y_FP': [5., 5.]})), fits.table_to_hdu(E)]).writeto(epath)
            hd = fits.open(epath, mode='update')
            hd[1].name, hd[2].name = 'OTHER', ['DATA', 'POSITIONS'][n // 8 % 2]
            hd.close()
            if n // 8 % 2:
                argv += ['--hdu-for-expected-positions', 'POSITIONS']
        else:
            E.write(epath)
        argv += ['--expected-positions', epath]
    if turb:
        argv += [turb]
    if fixed:
        argv += ['--fixed-scale', '--fixed-rotation']
    if zb:
        argv += ['--zbfit']
    if far:
        t2 = perturbed(w.lens(kind), np.random.default_rng(0))
        t2.rotation, t2.scale, t2.offset_x, t2.offset_y = truth.rotation + 3e-4, truth.scale * (1 + 1e-4), truth.offset_x + 1e-3, truth.offset_y - 1e-3
        t2.write_jsonfile(os.path.join(d, 'start.json'))
        argv += ['--input-transform', os.path.join(d, 'start.json')]
    opath = os.path.join(d, 'deep', 'er', 'out.csv') if n % 8 == 5 else os.path.join(d, 'out.csv')
    if n % 8 == 5:
        argv += ['--make-directory']
    tpath = os.path.join(d, 'tx.json')
    argv += ['--output-transform', tpath]
    fm = None
    if n % 3 == 1:
        fm = FieldModel()
        fm.ra, fm.dec, fm.mjd, fm.lst, fm.hexrot_deg, fm.adc1, fm.adc2 = 120., 30., 59000., 130., 0., 20., 200.
        fm.sxx, fm.syy, fm.sxy, fm.fieldrot_zp_deg = 1.001, .9995, .0002, .2
        fm.fieldrot_deg = fm.compute_fieldrot() if hasattr(fm, 'compute_fieldrot') else 0.
        with open(os.path.join(d, 'fm.json'), 'w') as f:
            f.write(fm.tojson())
        argv += ['--field-model', os.path.join(d, 'fm.json')]
    again = kind == 'full' and n % 10 == 7 and epath
    if again:
        # the table given is the result of a run that knew nothing of the expectation
        program(['-i', inp, '-o', inp], DATA)
    code = program(['-i', ifile, '-o', opath] + argv, w.dirs[kind])
    if not os.path.exists(opath):
        shutil.rmtree(d)
        return [{'op': 'table', 'code': code, 'n': len(x), 'rows': 0, 'kind': kind, 'how': how, 'same': False, 'pairs': 0, 'map': 0, 'left': 0, 'field': 0}]
    T = Table.read(opath, format='csv')
    tol = {'full': 1, 'small': 300}[kind] + (20 if zb else 0)      # 1e-4 mm
    # rows to spots
    if kind == 'full':
        row = np.arange(len(T)) if len(T) == len(x) else np.zeros(0, int)
        same = len(T) == len(x) and bool(np.allclose(T['XPIX'], px, atol=1e-9) and np.allclose(T['YPIX'], py, atol=1e-9) and np.allclose(T['COUNTS'], counts))
    else:
        row = np.array([int(np.argmin(np.hypot(px - r['XPIX'], py - r['YPIX']))) for r in T])
        same = len(T) == len(x) and len(set(row.tolist())) == len(x) and bool(np.max(np.hypot(px[row] - T['XPIX'], py[row] - T['YPIX'])) < .05)
    tx = FVC2FP.read_jsonfile(tpath) if os.path.exists(tpath) else None
    mx, my = tx.fvc2fp(np.array(T['XPIX']), np.array(T['YPIX'])) if tx else (np.full(len(T), 1e3),) * 2
    ev = []
    used = {}
    left = []
    for i, s in enumerate(row):
        r = T[i]
        g = int(r['LOCATION']), int(r['PINHOLE_ID'])
        if g[0] >= 0 and (g[1] > 0 or cls[s] == 'fiber'):
            used[g] = used.get(g, 0) + 1
        e = {'op': 'spot', 'n': n, 'how': how, 'is': str(cls[s]), 'loc': -1, 'pid': 0, 'gloc': g[0], 'gpid': g[1], 'split': int(r['PETAL_LOC']) * 1000 + int(r['DEVICE_LOC']), 'free': False,
             'tol': tol, 'fp': 0, 'map': 0, 'exp': 0, 'metro': 0, 'name': True, 'sky': 0, 'turb': turb is not None, 'has': True, 'expq': 0}
        t = turb is not None and cls[s] == 'fiber' and known[own[s]]
        fpd = max(abs(r['X_FP'] - x[s]), abs(r['Y_FP'] - y[s]))
        e['fp'] = 0 if t else q(fpd, 1e4)
        e['map'] = 0 if t else q(max(abs(r['X_FP'] - mx[i]), abs(r['Y_FP'] - my[i])), 1e7)
        ex = ey = mex = mey = 0.
        dev = 'None'
        if cls[s] == 'pin':
            k = sc.pins[own[s]]
            e['loc'], e['pid'], e['free'] = int(w.loc[k]), int(w.pid[k]), int(w.loc[k]) in w.alike
            if g[1] > 0:
                # of the device that the row names
                j = np.flatnonzero((w.loc == g[0]) & (w.pid == g[1]))
                mex, mey = (w.x[j[0]], w.y[j[0]]) if len(j) else (1e3, 1e3)
                ex, ey = mex, mey
                dev = str(w.met['DEVICE_ID'][j[0]]) if len(j) else 'x'
        elif cls[s] == 'fiber':
            f = own[s]
            if known[f]:
                e['loc'] = int(w.loc[sc.fib[f]])
                ex, ey = (w.x[sc.fib[f]], w.y[sc.fib[f]]) if how == 'metrology' else (sc.ex[f], sc.ey[f])
                dev = str(w.met['DEVICE_ID'][sc.fib[f]])
                if t:
                    left.append((r['X_FP'] - sc.ex[f], r['Y_FP'] - sc.ey[f], x[s] - sc.ex[f], y[s] - sc.ey[f]))
        etol = 1e-3 if how == 'EXP_Q_0' else 1e-7
        e['exp'] = q(max(0., max(abs(r['X_FP_EXP'] - ex), abs(r['Y_FP_EXP'] - ey)) - etol), 1e4)
        e['metro'] = q(max(abs(r['X_FP_METRO'] - mex), abs(r['Y_FP_METRO'] - mey)), 1e4)
        if 'DEVICE_ID' in T.colnames:
            v = str(r['DEVICE_ID']).strip()
            e['name'] = v in ('None', '--', '', 'nan') if dev == 'None' else v == dev or (cls[s] == 'pin' and v == 'None')
        if fm is not None:
            ra, dec = fm.fp2radec(np.array([r['X_FP']]), np.array([r['Y_FP']]))
            e['sky'] = q(3600e3 * max(abs(r['RA'] - ra[0]), abs(r['DEC'] - dec[0])), 1)
        ev.append(e)
    if not same:
        ev = []
    L = np.array(left).reshape(-1, 4)
    rm = lambda a, b: float(np.sqrt(np.mean(a ** 2 + b ** 2))) if len(a) else 0.
    ev.append({'op': 'table', 'case': n, 'code': code, 'n': len(x), 'rows': len(T), 'kind': kind, 'how': how, 'same': same, 'pairs': sum(v > 1 for v in used.values()), 'map': 1 if tx else 0,
               'left': q(rm(L[:, 0], L[:, 1]), 1e4), 'field': q(rm(L[:, 2], L[:, 3]), 1e4)})
    shutil.rmtree(d)
    return ev


# ---------------------------------------------------------------- process_fvc
def cached(a):
    n, seed, case, work = a
    rs = np.random.default_rng([seed, 132, n])
    np.random.seed(n)
    world(work)
    from astropy.table import Table
    from astropy.io import fits
    from desimeter import processfvc as pf
    name = 'vp_c13_%d_%d_%d' % (os.getpid(), seed, n)
    d = os.path.join(work, name)
    os.makedirs(d)
    path = os.path.join(d, name + ['.fits', '.csv', '.fits.fz'][0])
    outs = os.path.join(d, name + '.csv')
    keep = pf.get_outfilename(path)
    # in the scratch directory instead of /tmp
    pf.get_outfilename = lambda p: outs
    full = pf.fvc_proc

    def nomatch(args, log):
        # what is wrong with an image may be that it shows nothing known
        args.nomatch = state['good']
        return full(args, log)
    state = {'good': True}
    pf.fvc_proc = nomatch
    ev = {'op': 'cache', 'h': [], 'named': keep == os.path.join('/tmp', name + '.csv')}
    version = 1

    def write(good):
        state['good'] = good
        p = [(10 + 20 * k, 12 + 9 * (k % 3), 50000.) for k in range(version + 2)]
        im = image(rs, 60, 40 + 20 * (version + 3), p)
        fits.writeto(path, im.astype('f4'), overwrite=True)
        if not good and rs.random() < .5:
            with open(path, 'r+b') as f:
                f.truncate(1440)
    write(True)
    try:
        for h in case['h']:
            r = -1
            if h['op'] == 'replace':
                version += 1
                write(h['good'])
            else:
                try:
                    T = pf.process_fvc(path, overwrite=h['over'], use_subprocess=False)
                    r = 0 if T is None else len(T) - 2
                except (Exception, SystemExit):
                    r = 0
            ev['h'].append({'want': h['res'], 'got': r})
    finally:
        pf.fvc_proc = full
        pf.get_outfilename = lambda p: keep
        import importlib
        importlib.reload(pf)
        shutil.rmtree(d)
    return [ev]


def run(ck):
    rng, th = ck.rng, ck.thorough
    smaller(ck.work)
    C = ck.model('ProcModel', workers=8, constants={'MaxFrames': 4} if th else None, timeout=800).cases()
    for f in ('rank', 'stop', 'early'):
        ck.refuted('ProcModel', workers=4, constants={'Flaw': '"%s"' % f})
    H = ck.model('ProcCache', workers=4).cases()
    ck.refuted('ProcCache', workers=2, constants={'Flaw': '"old"'})
    light = [c for c in C if c['nomatch'] or c['in'] == 'csv' or c['in'] == 'other']
    simple = [c for c in C if c['in'] in ('csv', 'other')]
    heavy = [c for c in C if not c['nomatch'] and c['in'] in ('one', 'many') and c['out'] == 'csv' and not c['thr']]
    hard = [c for c in heavy if len([f for f in c['frames'] if f['has'] == 'full']) and not all(f['has'] == 'none' for f in c['frames'])]
    jobs = [(outcome, c) for c in simple] if len(simple) < 400 else [(outcome, c) for c in rng.sample(simple, 400)]
    jobs += [(outcome, c) for c in rng.sample([c for c in light if c['in'] not in ('csv', 'other')], 4000 if th else 400)]
    jobs += [(outcome, c) for c in rng.sample(hard, 300 if th else 24)]
    jobs = [(i, f, c) for i, (f, c) in enumerate(jobs)]
    with Pool(8, initializer=quiet) as pool:
        R = [pool.apply_async(f, ((i, ck.seed, c, ck.work),)) for i, f, c in sorted(jobs, key=lambda j: not (j[2]['in'] in ('one', 'many') and not j[2]['nomatch']))]
        R += [pool.apply_async(content, ((i, ck.seed, ck.work),)) for i in range(900 if th else 108)]
        R += [pool.apply_async(cached, ((i, ck.seed, h, ck.work),)) for i, h in enumerate(rng.sample(H, 600 if th else 60))]
        ev = [e for r in R for e in r.get()]
    ck.cov['events'] = {k: sum(1 for e in ev if e['op'] == k) for k in sorted({e['op'] for e in ev})}
    ck.sample({'run': C[0], 'history': H[0]})
    ck.judge('ProcTrace', ev, lambda e, c: (e['op'] + ' ' + c, e), chunk=5000)
    ck.assumptions = ['output files do not exist before the run', 'twelve or more fiducials or at most two', 'fiber spots closer to their own expected position than to others']
