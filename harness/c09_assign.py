"""C09: spots to positioners (spec/AssignReq.tla, AssignModel.tla, AssignTrace.tla)."""
import io, itertools, logging, os
import numpy as np
from common import run_bin

# three discs in general position: a spot position for every subset of them
CENTRES = [(0, 0), (800, 0), (400, 700)]
ARMS = [620, 610, 600]
REGION = {}


def regions():
    for x in range(-400, 1400, 17):
        for y in range(-400, 1300, 17):
            d = [np.hypot(x - a, y - b) - r for (a, b), r in zip(CENTRES, ARMS)]
            s = frozenset(i + 1 for i in range(3) if d[i] < 0)
            m = min(abs(v) for v in d)
            if m > 3:
                REGION.setdefault(s, []).append((x, y))
    assert len(REGION) == 8


def from_graph(rng, edges):
    """a scene whose reach graph is the given one (up to 3 positioners, 3 spots)"""
    spots = []
    for j in (1, 2, 3):
        c = frozenset(p for p, s in edges if s == j)
        spots.append(rng.choice([x for x in REGION[c] if x not in spots]))
    return [(x, y, a) for (x, y), a in zip(CENTRES, ARMS)], spots


def field(rng, n):
    """a random patch of a hexagonal focal plane"""
    pos = []
    k = 0
    short, missing = rng.choice([0, 0, .3]), rng.choice([.1, .1, .4])
    for i, j in itertools.product(range(5), range(5)):
        if k < n:
            arm = 2 * rng.randrange(290, 325) if rng.random() > missing else 0
            if arm and rng.random() < short:
                arm = 2 * rng.randrange(130, 200)   # a positioner with a short reach
            pos.append((1040 * i + 520 * (j % 2), 900 * j, arm))
            k += 1
    spots = []
    for x, y, a in pos:
        if rng.random() < .1:
            continue
        if rng.random() < .85:
            r, t = 600 * rng.random(), 6.2832 * rng.random()
            spots.append((int(x + r * np.cos(t)), int(y + r * np.sin(t))))
        else:
            spots.append((x + rng.randrange(-900, 900), y + rng.randrange(-900, 900)))
    for _ in range(rng.randrange(3)):
        spots.append((rng.randrange(-800, 6000), rng.randrange(-800, 5000)))
    return pos, spots


def median_arm(arms):
    return int(np.median([a for a in arms if a > 0]))


def ambiguous(pos, spots):
    """a spot exactly at the end of the reach: the strictness is not specified"""
    arms = [a for _, _, a in pos]
    m = median_arm(arms)
    return any((x - u) ** 2 + (y - v) ** 2 == (a or m) ** 2 for x, y, a in pos for u, v in spots)


def record(MP, rng, pos, spots, opts):
    """build the tables, run, record"""
    from astropy.table import Table
    e = {'op': 'assign', 'opts': {k: v for k, v in opts.items()}}
    fudge = opts.get('fudge', 10)
    rows = [(x, y, a, 1) for x, y, a in pos]
    sp = [(x, y, 1) for x, y in spots]
    if opts['clutter']:
        rows += [(x + 37, y + 11, 0, 0) for x, y, a in pos[:2]]        # fiducial pinholes
        sp += [(x + 15, y - 9, 0) for x, y, a in pos[:2]] + [(pos[-1][0] + 3, pos[-1][1] + 5, 2)]  # pinhole spots, a faint spot
    if opts['shuffle']:
        rng.shuffle(rows)
        rng.shuffle(sp)
    ids = ['M%05d' % i for i in range(len(rows))]
    if opts['shuffle']:
        rng.shuffle(ids)
    metr = Table({'DEVICE_ID': ids, 'X_FP': [r[0] / 100. for r in rows], 'Y_FP': [r[1] / 100. for r in rows],
                  'PINHOLE_ID': [0 if r[3] else 3 for r in rows]})
    thresh = opts['thresh']
    fvc = Table({'X_FP': [s[0] / 100. for s in sp], 'Y_FP': [s[1] / 100. for s in sp],
                 'PINHOLE_ID': [0 if s[2] else 2 for s in sp],
                 'COUNTS': [thresh * (1.5 if s[2] == 1 else .9) if s[2] else thresh * 3. for s in sp]})
    cal = [(i, r[2]) for i, r in zip(ids, rows) if r[2] > 0 and r[3]]
    if opts['shuffle']:
        rng.shuffle(cal)
    if opts['clutter']:
        # positioners of another focal plane, whose names fall between the others
        for i in rng.sample(ids, min(3, len(ids))) + ['M99999', 'L00000']:
            cal.insert(rng.choice([0, len(cal)]), (i + rng.choice('0B'), 1200))
    suffix = '_STATIC' if opts['static'] else ''
    r1 = [(a - fudge) // 2 + rng.choice([0, 0, 8]) for _, a in cal]
    r2 = [a - fudge - b for (_, a), b in zip(cal, r1)]
    calib = Table({'POS_ID': [i for i, _ in cal], 'LENGTH_R1' + suffix: [v / 100. for v in r1], 'LENGTH_R2' + suffix: [v / 100. for v in r2]})
    if opts['static']:   # fitted lengths of this epoch, not to be used when static ones are there
        calib['LENGTH_R1'] = [2.] * len(cal)
        calib['LENGTH_R2'] = [2.] * len(cal)
    e['metr'] = [list(r) for r in rows]
    e['spots'] = [[s[0], s[1], int(s[2] == 1)] for s in sp]
    before = (metr.copy(), fvc.copy(), calib.copy())
    try:
        kw = {} if thresh == 80000 else {'countthresh': thresh}
        if fudge != 10:
            kw['arm_fudge_offset'] = fudge / 100.
        ind, sc, n, alts = MP.match_positioners(fvc, metr, calib, return_alternatives=True, **kw)
        r = MP.match_positioners(fvc, metr, calib, **kw)
        if len(r) != 3 or not np.array_equal(r[0], ind) or r[2] != n:
            e['exc'] = 'result without alternatives differs'
        poss = MP.possible_assignments_dict(ind, alts)
        e.update(ind=[int(i) for i in ind], has=[int(np.isfinite(v)) for v in sc], score=int(n),
                 alts=[[int(i) for i in a] for a in np.unique(np.atleast_2d(alts), axis=0)] if len(alts) else [],
                 poss=sorted([int(p), int(s)] for p in poss for s in poss[p]))
        f = io.StringIO()
        MP.print_groupings(fvc, metr, ind, alts, file=f, calib=None if opts['static'] else calib)
        printed = []
        lengths = {i: (a / 100., b / 100.) for (i, _), a, b in zip(cal, r1, r2)}
        key = {}
        for j, s in enumerate(sp):
            key[('%.4f' % (s[0] / 100.), '%.4f' % (s[1] / 100.))] = j
        for line in f.getvalue().splitlines()[1:]:
            w = line.split()
            p = ids.index(w[0])
            x, y = float(w[1]), float(w[2])
            j = key.get(('%.4f' % x, '%.4f' % y), -1)
            cx, cy = rows[p][0] / 100., rows[p][1] / 100.
            d = np.hypot(x - cx, y - cy)
            if opts['static'] or w[0] not in lengths or not (d > 0):
                el = [0] * 6 + [0]
            else:
                a, b = lengths[w[0]]
                ex, ey = float(w[3]), float(w[4])
                el = [int(round(1000 * v)) for v in (ex - cx, ey - cy, ex - x, ey - y, a, b, d)]
            printed.append([p, j, int(w[-1])] + el)
        e['printed'] = printed
    except Exception as exc:
        e['exc'] = repr(exc)[:150]
    e['pure'] = all(a.colnames == b.colnames and all(np.array_equal(a[c], b[c]) for c in a.colnames)
                    for a, b in zip(before, (metr, fvc, calib)))
    return e


def program(ck, rng, petal):
    """the program that prints ambiguous groups, on one petal of the real focal plane"""
    from astropy.table import Table
    from common import metrology
    m = metrology()
    m = m[(m['DEVICE_TYPE'] == 'POS') & (m['PETAL_LOC'] == petal)]
    sel = sorted(rng.sample(range(len(m)), 60))
    rows, cx, cy = [], np.round(np.array(m['X_FP'], float) * 100), np.round(np.array(m['Y_FP'], float) * 100)
    nr = np.random.RandomState(rng.randrange(2 ** 31))
    for k in sel:
        r, t = 6 * np.sqrt(nr.rand()), 2 * np.pi * nr.rand()
        rows.append((m['X_FP'][k] + r * np.cos(t), m['Y_FP'][k] + r * np.sin(t)))
    t = Table({'X_FP': np.round([r[0] for r in rows], 2), 'Y_FP': np.round([r[1] for r in rows], 2),
               'DEVICE_ID': np.array(m['DEVICE_ID'][sel]), 'PINHOLE_ID': np.zeros(len(sel), int), 'COUNTS': np.full(len(sel), 1e5)})
    path = os.path.join(ck.work, 'fvc%d.csv' % petal)
    t.write(path, overwrite=True)
    cal = Table({'POS_ID': np.array(m['DEVICE_ID']), 'LENGTH_R1': np.full(len(m), 3.), 'LENGTH_R2': np.full(len(m), 3.)})
    cpath = os.path.join(ck.work, 'cal%d.csv' % petal)
    cal.write(cpath, overwrite=True)
    rc, out = run_bin('desi_print_ambigous_groups', [path, '--petal', str(petal), '--calib', cpath], ck.work)
    e = {'op': 'program', 'pure': True, 'has': [], 'opts': {'petal': petal}}
    if rc != 0:
        e['exc'] = out[-300:]
        return e
    ids = [str(v) for v in m['DEVICE_ID']]
    # micrometre centres rounded to 0.01 mm: spots within 0.02 mm of the end of the reach are left out by the caller
    sx, sy = np.round(np.array(t['X_FP']) * 100).astype(int), np.round(np.array(t['Y_FP']) * 100).astype(int)
    printed = []
    for line in out.splitlines():
        w = line.split()
        if len(w) == 6 and w[0] in ids:
            x, y = round(float(w[1]) * 100), round(float(w[2]) * 100)
            j = [k for k in range(len(sx)) if abs(sx[k] - x) + abs(sy[k] - y) == 0]
            printed.append([ids.index(w[0]), j[0] if j else -1, int(w[-1])] + [0] * 7)
    # only what is printed is observed: the possible assignments
    d = np.hypot(cx[:, None] - sx[None, :], cy[:, None] - sy[None, :])
    e['border'] = bool(np.any(np.abs(d - 610) < 3))
    e['centre'] = [[int(a), int(b)] for a, b in zip(cx, cy)]
    e['spots'] = [[int(a), int(b)] for a, b in zip(sx, sy)]
    e['printed'] = printed
    return e


def run(ck):
    import desimeter.log
    from desimeter import match_positioners as MP
    desimeter.log.get_logger().setLevel(logging.CRITICAL)
    rng = ck.rng
    regions()
    graphs = ck.model('AssignModel', workers=4, constants={'NP': 3, 'NS': 3}).cases()
    if ck.thorough:
        ck.model('AssignModel', workers=6, constants={'NP': 3, 'NS': 4}, heap='6g')
    ck.cov['reach_graphs'] = len(graphs)
    ck.sample({'graph': graphs[len(graphs) // 2]})
    ev, skipped = [], 0
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        for k, g in enumerate(graphs):
            pos, spots = from_graph(rng, [tuple(x) for x in g])
            o = {'clutter': k % 3 == 0, 'shuffle': k % 2 == 0, 'static': k % 7 == 0, 'thresh': rng.choice([80000, 500.])}
            if ambiguous(pos, spots):
                skipped += 1
                continue
            ev.append(record(MP, rng, pos, spots, o))
        for k in range(1500 if ck.thorough else 130):
            pos, spots = field(rng, rng.randrange(2, 26))
            if not any(p[2] for p in pos) or ambiguous(pos, spots) or len(set(spots)) < len(spots) or not spots:
                skipped += 1
                continue
            o = {'clutter': rng.random() < .5, 'shuffle': rng.random() < .7, 'static': rng.random() < .2,
                 'thresh': rng.choice([80000, 80000, 12.]), 'fudge': rng.choice([10, 10, 10, 4, 30])}
            ev.append(record(MP, rng, pos, spots, o))
    ck.cov['skipped_at_the_border'] = skipped

    def desc(e, c):
        return '%s:%s' % (e['op'], c), e
    ck.judge('AssignTrace', ev, desc, chunk=200)
    pe = [program(ck, rng, p) for p in (range(10) if ck.thorough else [rng.randrange(10)])]
    pe = [e for e in pe if 'exc' in e or not e['border']] or pe[:0]
    if pe:
        ck.judge('AssignPrint', pe, desc)
    ck.assumptions = ['positions on a 0.01 mm grid and no spot exactly at the end of a reach', 'arms of positioners without calibration: the median, as documented in the code']
