"""C21: who may move, and who may move together (spec/Safe.tla, SafeModel.tla, SafeTrace.tla)."""
import ast, glob, io, os, re, runpy, shutil, sys
import numpy as np
from multiprocessing import Pool
from common import BIN

ANGLES = {90: (0, 0, 1), 60: (1, 1, 4), 120: (-1, 1, 4), 45: (1, 1, 2), 135: (-1, 1, 2), 30: (1, 3, 4), 150: (-1, 3, 4)}


FN = None


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    import warnings
    warnings.simplefilter('ignore')
    os.environ['MPLBACKEND'] = 'Agg'


def verdict(job):
    """the function of the program, with other limits"""
    P, step, turn, lim, angle = job
    from astropy.table import Table
    global FN
    if FN is None:
        FN = runpy.run_path(os.path.join(BIN, 'ok2move'), run_name='ok2move').get('ok2move', 0)
    if FN == 0:
        return None
    c, s = np.cos(turn), np.sin(turn)
    P = [list(p) for p in P]
    a = np.array(P, dtype=float) * step
    t = Table({'X_FP': a[:, 0] * c - a[:, 1] * s + 17.3, 'Y_FP': a[:, 0] * s + a[:, 1] * c - 201.9})
    L = dict(zip('sab', ANGLES[angle]))
    e = {'op': 'verdict', 'P': P, 'lim2': lim, 'L': L, 'ok': [], 'rc': 'zero'}
    try:
        # a limit between two possible distances
        e['ok'] = [int(bool(v)) for v in FN(t, tooclose=np.sqrt(lim) * step, maxangle=angle)]
    except Exception as x:
        e['rc'], e['note'] = 'error', repr(x)[:200]
    return e


def program(job):
    P, pins, size, how, work, k = job
    from astropy.table import Table
    d = os.path.join(work, 'p%d' % k)
    os.makedirs(d)
    ids = ['M%05d' % ((7919 * (i + k) + 13) % 99991) for i in range(len(P))]
    t = Table({'DEVICE_ID': ids, 'X_FP': [p[0] / 100 for p in P], 'Y_FP': [p[1] / 100 for p in P], 'PINHOLE_ID': pins, 'XPIX': [40. + p[0] / 40 for p in P], 'YPIX': [40. + p[1] / 40 for p in P]})
    t.write(os.path.join(d, 'in.csv'))
    keep = [i for i in range(len(P)) if pins[i] == 0]
    num = {ids[i]: n + 1 for n, i in enumerate(keep)}
    e = {'op': 'program', 'P': [list(P[i]) for i in keep], 'lim2': 350 * 350, 'L': dict(zip('sab', ANGLES[90])), 'size': size or 50, 'groups': [], 'rc': 'zero', 'names': 0, 'html': how == 'html', 'pages': []}
    args = ['-i', os.path.join(d, 'in.csv')] + (['-g', str(size)] if size else [])
    if how != 'stdout':
        args += ['-o', os.path.join(d, 'out.txt')]
    if how == 'html':
        from astropy.io import fits
        fits.writeto(os.path.join(d, 'f.fits'), np.random.default_rng(1).normal(100., 5., (600, 600)).astype('f4'))
        args += ['--plotdir', os.path.join(d, 'plots'), '--fvcimage', os.path.join(d, 'f.fits')]
    argv, out = sys.argv, sys.stdout
    sys.argv, sys.stdout = ['ok2move'] + args, io.StringIO()
    try:
        runpy.run_path(os.path.join(BIN, 'ok2move'), run_name='__main__')
    except SystemExit as x:
        e['rc'] = 'zero' if x.code in (0, None) else 'error'
    except Exception as x:
        e['rc'], e['note'] = 'error', repr(x)[:200]
    finally:
        sys.argv, text, sys.stdout = argv, sys.stdout.getvalue(), out
    if how != 'stdout' and os.path.exists(os.path.join(d, 'out.txt')):
        text = open(os.path.join(d, 'out.txt')).read()
    g = re.findall(r'^(group\w*) = (\[.*\])$', text, re.M)
    e['names'] = len({a for a, b in g})
    e['groups'] = [[num.get(x, 0) for x in ast.literal_eval(b)] for a, b in g]
    if how == 'html':
        e['pages'] = [[num.get(x, 0) for x in re.findall(r'(\w+)\.png', open(f).read())] for f in sorted(glob.glob(os.path.join(d, 'plots', 'group*.html')))]
    shutil.rmtree(d)
    return e


def groups(job):
    P, other, work, k = job
    from astropy.table import Table
    import desimeter.io
    d = os.path.join(work, 'g%d' % k)
    os.makedirs(d)
    keep = desimeter.io.load_metrology
    if P is None:
        m = keep()
        m = m[m['DEVICE_TYPE'] == 'POS']
        ids = list(m['DEVICE_ID'])
        P = [[int(round(x * 50)), int(round(y * 50))] for x, y in zip(m['X_FP'], m['Y_FP'])]
        lim = 600
    else:
        ids = ['M%05d' % ((7919 * (i + k) + 13) % 99991) for i in range(len(P))]
        t = Table({'DEVICE_ID': ids, 'DEVICE_TYPE': ['POS'] * len(P), 'X_FP': [p[0] / 100 for p in P], 'Y_FP': [p[1] / 100 for p in P]})
        for j, p in enumerate(other):
            # fiducials and others between the positioners
            t.insert_row((j * 5) % (len(t) + 1), ['F%d' % j, ['FIF', 'GIF', 'ETC'][j % 3], p[0] / 100, p[1] / 100])
        desimeter.io.load_metrology = lambda: t
        lim = 1200
    num = {x: n + 1 for n, x in enumerate(ids)}
    e = {'op': 'groups', 'P': P, 'lim2': lim * lim, 'groups': [], 'lists': [], 'inner': list(range(1, len(P) + 1)), 'rc': 'zero'}
    cwd, argv = os.getcwd(), sys.argv
    os.chdir(d)
    sys.argv = ['select_groups_of_positioners']
    try:
        runpy.run_path(os.path.join(BIN, 'select_groups_of_positioners'), run_name='__main__')
    except SystemExit as x:
        e['rc'] = 'zero' if x.code in (0, None) else 'error'
    except Exception as x:
        e['rc'], e['note'] = 'error', repr(x)[:200]
    finally:
        sys.argv = argv
        os.chdir(cwd)
        desimeter.io.load_metrology = keep
        import matplotlib.pyplot as plt
        plt.close('all')
    for f in sorted(glob.glob(d + '/group-*.csv')):
        t = Table.read(f, format='ascii.csv')
        e['groups'].append([num.get(str(x), 0) for x in (t['DEVICE_ID'] if len(t) else [])])
    for f in sorted(glob.glob(d + '/group-*.list')):
        e['lists'].append([num.get(x, 0) for x in ast.literal_eval(open(f).read().strip())])
    shutil.rmtree(d)
    return e


def windows(e, side=3000, margin=700):
    """the whole focal plane, judged in overlapping windows"""
    a = np.array(e['P'])
    lo = a.min(axis=0)
    out = []
    if e['rc'] != 'zero':
        return [e]
    for x in range(lo[0], a[:, 0].max() + 1, side):
        for y in range(lo[1], a[:, 1].max() + 1, side):
            inner = (a[:, 0] >= x) & (a[:, 0] < x + side) & (a[:, 1] >= y) & (a[:, 1] < y + side)
            take = (a[:, 0] >= x - margin) & (a[:, 0] < x + side + margin) & (a[:, 1] >= y - margin) & (a[:, 1] < y + side + margin)
            if not inner.any():
                continue
            idx = np.where(take)[0]
            new = {int(i) + 1: n + 1 for n, i in enumerate(idx)}
            cut = lambda gs: [[new.get(i, 0) for i in g if i == 0 or i in new] for g in gs]
            out.append(dict(e, P=[e['P'][i] for i in idx], groups=cut(e['groups']), lists=cut(e['lists']), inner=[new[int(i) + 1] for i in np.where(inner)[0]]))
    return out


def crowd(rng, n, span, close):
    """random spots at distinct integer places"""
    P = []
    while len(P) < n:
        if P and rng.random() < .7:
            b = rng.choice(P)
            r, t = rng.uniform(.3, 1.3) * close, rng.choice([rng.uniform(0, 7), rng.randrange(8) * np.pi / 4])
            p = (int(b[0] + r * np.cos(t)), int(b[1] + r * np.sin(t)))
        else:
            p = (rng.randrange(span), rng.randrange(span))
        if p not in P:
            P.append(p)
    return P


def patrol(rng):
    """a part of a grid of positioners, in any order, at most 6 neighbours within the safety distance"""
    n, pitch = rng.randrange(1, 8), rng.uniform(1040, 1100)
    jit = rng.choice([0, 20, 60])
    P = [(int(pitch * (i + .5 * j) + rng.uniform(-jit, jit)), int(pitch * .866025 * j + rng.uniform(-jit, jit))) for i in range(n) for j in range(n)]
    P = [p for p in P if rng.random() < .9] or P
    if rng.random() < .3:
        # elsewhere, sparse
        P += [(20000 + int(p[0] * 1.1), int(p[1] * 1.12)) for p in P[:rng.randrange(8)]]
    r = rng.random()
    if r < .4:
        rng.shuffle(P)
    elif r < .6:
        P.reverse()
    a = np.array(P)
    d = np.hypot(a[:, None, 0] - a[:, 0], a[:, None, 1] - a[:, 1])
    if ((d < 1205).sum(axis=1) > 7).any():
        return patrol(rng)
    return P


def run(ck):
    rng, th = ck.rng, ck.thorough
    cases = ck.model('SafeModel', workers=8, constants={'N': 5 if th else 4, 'Side': 3}).cases()
    ck.refuted('SafeModel', workers=4, constants={'K': 1, 'N': 3, 'Side': 2})
    small = rng.sample(cases, min(len(cases), 20000 if th else 700))
    vjobs = []
    for P in small + [[list(p) for p in set(crowd(rng, rng.randrange(1, 9), 12, 4))] for _ in range(6000 if th else 700)]:
        P = [list(p) for p in P]
        rng.shuffle(P)
        vjobs.append((P, rng.choice([1., .37, 2.7, 9.1]), rng.choice([0., 0., rng.uniform(0, 7)]), rng.randrange(1, 40), rng.choice([90, 90, 60, 120, 45, 135, 30, 150])))
    pjobs = []
    for k in range(1500 if th else 220):
        n = rng.choice([rng.randrange(1, 6), rng.randrange(3, 16), rng.randrange(10, 31)])
        if k == 0:
            n = 75
        P = crowd(rng, n, rng.choice([600, 2500, 12000]), 350)
        pins = [0 if rng.random() < .85 else rng.randrange(1, 5) for _ in P]
        pjobs.append((P, pins, None if k == 0 else rng.choice([None, 1, 2, 3, 5, 7]), 'stdout' if rng.random() < .3 else 'file', ck.work, k))
    for k in range(3):
        P = crowd(rng, rng.randrange(3, 8), 2500, 350)
        pjobs.append((P, [0] * len(P), rng.choice([2, 3]), 'html', ck.work, 9000 + k))
    gjobs = [(None, [], ck.work, 0)] + [(patrol(rng), [(rng.randrange(20000), rng.randrange(20000)) for _ in range(rng.choice([0, 3, 9]))], ck.work, k) for k in range(1, 600 if th else 90)]
    with Pool(7, initializer=quiet) as pool:
        g = pool.map_async(groups, gjobs, chunksize=1)
        p = pool.map_async(program, pjobs, chunksize=4)
        ev = pool.map(verdict, vjobs, chunksize=20)
        p, g = p.get(), g.get()
    ev = [e for e in ev if e]
    ck.cov['runs'] = {'verdicts': len(ev), 'ok2move programs': len(p), 'groupings': len(g), 'positioners of the focal plane': len(g[0]['P'])}
    if ev:
        ck.sample({'P': ev[5]['P'], 'limit squared': ev[5]['lim2'], 'ok': ev[5]['ok']})
    ck.sample({'P': p[3]['P'], 'groups': p[3]['groups']})
    full = windows(g[0])
    ck.judge('SafeTrace', ev + p + g[1:] + full, lambda e, c: (e['op'] + ' ' + c, e), chunk=150)
    ck.assumptions = ['no two spots at the same place', 'at most six positioners within the safety distance of one (as on the focal plane)', 'at a limit itself either verdict stands']
