"""C25: circles through measured points (spec/Circle.tla, CircleModel.tla, DeviceModel.tla, CircleTrace.tla)."""
import os, sys
import numpy as np
from multiprocessing import Pool
from common import BIN


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    import warnings
    warnings.simplefilter('ignore')


um = lambda v: int(round(float(v) * 1000)) if np.isfinite(v) and abs(v) < 2000 else 1900000


def call(f, x, y):
    try:
        return 'ok', f(x, y)
    except ValueError as e:
        return ('refused' if 'circle' in str(e) else 'error'), None
    except Exception:
        return 'error', None


def arc(rs, n, span, order):
    """n angles over span degrees, never closer than half of the mean distance"""
    st = span / (n if span == 360 else n - 1)
    a = np.radians(rs.uniform(0, 360) + st * (np.arange(n) + rs.uniform(-.25, .25, n)))
    return a if order == 'sorted' else a[::-1].copy() if order == 'reversed' else rs.permutation(a)


def event(op, f, x, y, cx, cy, r, exact, out):
    pts = [[um(a), um(b)] for a, b in zip(x - cx, y - cy)]
    rc, g = call(f, x, y)
    e = dict(op=op, pts=pts, r=um(r), exact=exact, out=[bool(o) for o in out], rc=rc, c=[0, 0], R=0, ok=[True] * len(x))
    if rc == 'ok':
        e['c'] = [um(g[0] - cx), um(g[1] - cy)]
        e['R'] = um(g[2])
        if op == 'robust':
            e['ok'] = [bool(v) for v in g[3]]
    return e


def fits(job):
    seed, k = job
    from desimeter.circles import fit_circle, robust_fit_circle
    rs = np.random.RandomState(seed)
    E = []
    for _ in range(k):
        n = int(rs.choice([3, 3, 4, 4, 5, 6, 7, 8, 9, 11, 14, 20]))
        order = rs.choice(['sorted', 'reversed', 'shuffled'])
        exact = bool(rs.rand() < .5)
        if exact:
            span = 360 if n == 3 else rs.choice([60, 90, 140, 200, 360])
            noise = 0.
        else:
            n = max(n, 5)
            span, noise = (360, .02) if rs.rand() < .5 else (240, .008)
        r = rs.uniform(1.05, 4.95)
        kind = rs.choice(['good', 'good', 'good', 'good', 'small', 'big', 'far'])
        if kind == 'small' and exact:
            r = rs.uniform(.02, .89)
        elif kind == 'big' and exact:
            r = rs.uniform(5.11, 9.)
        elif kind == 'far' and exact and n > 3:
            r = rs.uniform(10., 30.)
        cx, cy = rs.uniform(-420, 420, 2)
        a = arc(rs, n, span, order)
        rr = r + np.clip(rs.normal(0, noise, n), -.055, .055) if noise else r
        x, y = cx + rr * np.cos(a), cy + rr * np.sin(a)
        E.append(event('fit', fit_circle, x, y, cx, cy, r, exact, [False] * n))
        # without any outlier: every point is used
        if exact or n >= 7:
            E.append(event('robust', robust_fit_circle, x, y, cx, cy, r, exact, [False] * n))
    return E


def robust(job):
    seed, cases = job
    from desimeter.circles import robust_fit_circle
    rs = np.random.RandomState(seed)
    E = []
    for c in cases:
        n, out = c['n'], np.array(c['out'])
        span = 360 if n == 3 else rs.choice([120, 200, 360])
        exact = bool(rs.rand() < .7) or n < 9 or span < 200
        order = rs.choice(['sorted', 'reversed', 'shuffled']) if exact else rs.choice(['sorted', 'reversed'])
        r = rs.uniform(1.05, 4.95) if rs.rand() < .85 or not exact else rs.choice([rs.uniform(.7, .9), rs.uniform(5.2, 8)])
        cx, cy = rs.uniform(-420, 420, 2)
        a = arc(rs, n, span, order)
        rr = np.full(n, r) + (np.clip(rs.normal(0, .004, n), -.015, .015) if not exact else 0)
        big = rs.choice([.7, 2., 6.])
        for i in np.where(out)[0]:
            d = big * rs.uniform(1, 2)
            rr[i] = r + d if rs.rand() < .6 or r - d < .05 else r - d
        x, y = cx + rr * np.cos(a), cy + rr * np.sin(a)
        E.append(event('robust', robust_fit_circle, x, y, cx, cy, r, exact, out))
    return E


def tour(job):
    """all devices of a small instrument through desi_fit_circles"""
    seed, devices, work = job
    import runpy
    from astropy.table import Table
    from desimeter.transform.xy2qs import xy2uv, uv2xy
    import matplotlib
    matplotlib.use('Agg')
    rs = np.random.RandomState(seed)
    nexp = len(devices[0]['h'])
    rows = [[] for _ in range(nexp)]
    truth = {}
    for i, d in enumerate(devices):
        pin = 0 if d['kind'] == 'pos' else int(rs.randint(1, 5))
        loc = 1000 * (i % 10) + 11 + i // 10
        rad, az = rs.uniform(40, 400), rs.uniform(0, 2 * np.pi)
        u0, v0 = rad * np.cos(az), rad * np.sin(az)
        x0, y0 = (float(v) for v in uv2xy(u0, v0))
        if d['kind'] == 'fid':
            x, y = np.full(nexp, x0), np.full(nexp, y0)
        elif not d['moves']:
            x, y = x0 + rs.normal(0, .003, nexp), y0 + rs.normal(0, .003, nexp)
        else:
            r, a = rs.uniform(2.2, 4.5), arc(rs, nexp, 360, 'shuffled')
            if not d['fits'] and rs.rand() < .4:
                r = rs.uniform(5.3, 8)
            x, y = uv2xy(u0 + r * np.cos(a), v0 + r * np.sin(a))
        t = rs.uniform(0, 2 * np.pi)
        # a device without a possible circle: far from where it is expected, or of a wrong radius
        far = not d['fits'] and not (d['kind'] == 'pos' and d['moves'] and r > 5)
        off = rs.uniform(3.2, 6) if far else rs.uniform(0, 2.6)
        ex, ey = x0 + off * np.cos(t), y0 + off * np.sin(t)
        truth[(loc, pin)] = (d, x0, y0, ex, ey)
        for k, w in enumerate(d['h']):
            if w == 'once':
                rows[k].append((loc, pin, x[k], y[k], ex, ey))
            elif w == 'zero':
                rows[k].append((loc, pin, 0., 0., ex, ey))
            elif w == 'twice':
                rows[k].append((loc, pin, x[k], y[k], ex, ey))
                rows[k].append((loc, pin, x[k] + rs.uniform(-3, 3), y[k] + rs.uniform(-3, 3), ex, ey))
    names = []
    for k in range(nexp):
        for _ in range(5):          # spots matched to no device
            rows[k].append((-1, int(rs.randint(0, 2)), rs.uniform(-400, 400), rs.uniform(-400, 400), 0., 0.))
        p = rs.permutation(len(rows[k]))
        t = Table(rows=[rows[k][j] for j in p], names=['LOCATION', 'PINHOLE_ID', 'X_FP', 'Y_FP', 'X_FP_EXP', 'Y_FP_EXP'])
        names.append(os.path.join(work, 'tour%d_%d.csv' % (seed, k)))
        t.write(names[-1], format='csv', overwrite=True)
    res = os.path.join(work, 'tour%d_out.csv' % seed)
    argv = sys.argv
    sys.argv = ['desi_fit_circles', '-i'] + names + ['-o', res]
    rc = 'ok'
    try:
        runpy.run_path(os.path.join(BIN, 'desi_fit_circles'), run_name='__main__')
    except SystemExit as e:
        rc = 'ok' if not e.code else 'error'
    except Exception as e:
        rc = repr(e)[:200]
    finally:
        sys.argv = argv
    E = [dict(op='program', rc=rc)]
    if rc == 'ok' and not os.path.exists(res):
        E[0]['rc'] = 'no output'
    if E[0]['rc'] == 'ok':
        T = Table.read(res)
        for (loc, pin), (d, x0, y0, ex, ey) in truth.items():
            ii = [j for j in range(len(T)) if int(T['LOCATION'][j]) == loc and int(T['PINHOLE_ID'][j]) == pin]
            e = dict(op='row', d=d, listed=bool(ii), once=len(ii) < 2, c=[0, 0], metro=[0, 0])
            if ii:
                t = T[ii[0]]
                e['c'] = [um(t['X_FP'] - x0), um(t['Y_FP'] - y0)]
                e['metro'] = [um(t['X_FP_METRO'] - ex), um(t['Y_FP_METRO'] - ey)]
            E.append(e)
        E.append(dict(op='program', rc='ok' if len(T) <= len(truth) and all((int(t['LOCATION']), int(t['PINHOLE_ID'])) in truth for t in T) else 'rows of no device'))
    for f in names + [res]:
        if os.path.exists(f):
            os.unlink(f)
    return E


def run(ck):
    th = ck.thorough
    C = ck.model('CircleModel', workers=8, constants={'MaxN': 20, 'MaxK': 3} if th else None).cases()
    for f in ('nostep', 'opposite', 'mean'):
        ck.refuted('CircleModel', workers=4, constants={'Flaw': '"%s"' % f})
    D = ck.model('DeviceModel', workers=8, constants={'NExp': 8} if th else None).cases()
    for f in ('both', 'few', 'still'):
        ck.refuted('DeviceModel', workers=4, constants={'Flaw': '"%s"' % f})
    rs = np.random.RandomState(ck.seed)
    jobs = [('fits', (int(rs.randint(2 ** 31)), 60)) for _ in range(400 if th else 32)]
    C = C * (20 if th else 4)
    rs.shuffle(C)
    jobs += [('robust', (int(rs.randint(2 ** 31)), C[i:i + 100])) for i in range(0, len(C), 100)]
    D.sort(key=str)
    D = [D[i] for i in rs.permutation(len(D))]
    if not th:
        D = D[:6000]
    jobs += [('tour', (int(rs.randint(2 ** 31)), D[i:i + 400], ck.work)) for i in range(0, len(D), 400)]
    E = []
    with Pool(8, initializer=quiet) as pool:
        for part in pool.imap(work, jobs):
            E += part
    ck.cov['circles fitted'] = sum(e['op'] == 'fit' for e in E)
    ck.cov['circles with rejection'] = sum(e['op'] == 'robust' for e in E)
    ck.cov['devices through desi_fit_circles'] = sum(e['op'] == 'row' for e in E)
    ck.assumptions += ['points of a fit are distinct, at least half of their mean distance apart', 'outliers are at least 0.6 mm off, fewer than one in six']
    ck.judge('CircleTrace', E, lambda e, c: ('%s:%s' % (c, e['op'] if e['op'] != 'robust' else 'robust-%d' % min(len(e['pts']), 4)), {'event': e}))


def work(job):
    return {'fits': fits, 'robust': robust, 'tour': tour}[job[0]](job[1])
