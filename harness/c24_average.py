"""C24: averages and corrections over corresponding entries
(spec/Average.tla, AverageModel.tla, PairModel.tla, StillModel.tla, CorrModel.tla, AverageTrace.tla)."""
import os
import numpy as np
from multiprocessing import Pool
from common import q


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    import warnings
    warnings.simplefilter('ignore')


def hush():
    import desimeter.log
    desimeter.log.get_logger().setLevel('CRITICAL')


def top(x, scale):
    x = np.max(np.abs(np.asarray(x, float))) if np.size(x) else 0.
    return 10 ** 9 if not np.isfinite(x) else int(min(10 ** 9, np.ceil(x * scale)))


def rms(a, b):
    return float(np.sqrt(np.mean(np.asarray(a) ** 2 + np.asarray(b) ** 2)))


# ---------------------------------------------------------------- pairing
def pair(a):
    n, seed, case = a
    rs = np.random.default_rng([seed, 241, n])
    from desimeter.match_positioners import match
    kinds = [lambda k: np.array([0, 17, 3012, 5001, 9999])[k], lambda k: np.array(['', 'M001', 'M00102', 'M07', 'P3'])[k], lambda k: np.array([-1e3, -1., .5, 2.25, 7e5])[k]]
    f = kinds[n % 3]
    A, B = [f(np.array(case[k], dtype=int)) for k in 'ab']
    A0, B0 = A.copy(), B.copy()
    try:
        i, j = match(A, B)
        rc, P = 'ok', [[int(u) + 1, int(v) + 1] for u, v in zip(i, j)]
        if len(i) != len(j) or not (A == A0).all() or not (B == B0).all():
            rc = 'error'
    except ValueError as e:
        rc, P = ('refused' if 'unique' in str(e) else 'error'), []
    except Exception:
        rc, P = 'error', []
    return [{'op': 'pair', 'a': case['a'], 'b': case['b'], 'rc': rc, 'pairs': P}]


def near(a):
    n, seed = a
    rs = np.random.default_rng([seed, 242, n])
    from desimeter.match_positioners import match2d
    na, nb = rs.integers(1, 7, 2)
    p, s = rs.integers(-4, 5, (na, 2)), rs.integers(-4, 5, (nb, 2))
    r2 = int(rs.choice([0, 1, 2, 4, 5, 8, 9, 13, 25]))
    k = float(rs.choice([1., 10.4, .37]))
    try:
        i, j, d = match2d(k * p[:, 0], k * p[:, 1], k * s[:, 0], k * s[:, 1], k * (np.sqrt(r2) + 1e-6))
        rc = 'ok' if len(i) == len(j) == len(d) else 'error'
        P = [[int(u) + 1, int(v) + 1] for u, v in zip(i, j)]
        D = [q(v ** 2 / k ** 2, 1000) for v in d]
    except Exception:
        rc, P, D = 'error', [], []
    return [{'op': 'near', 'p': p.tolist(), 'q': s.tolist(), 'r2': r2, 'rc': rc, 'pairs': P, 'd': D}]


# ---------------------------------------------------------------- averaging
def average(a):
    n, seed, case = a
    rs = np.random.default_rng([seed, 243, n])
    hush()
    from astropy.table import Table, MaskedColumn
    from desimeter.averagecoord import average_coordinates
    T = case['T']
    m = int(rs.integers(7, 12))
    groups = sorted({g for t in T for g in t})
    xk, yk = [('XPIX', 'YPIX'), ('X_FP', 'Y_FP')][n % 2]
    size, gap = (800., 25.) if xk == 'XPIX' else (150., 10.4)
    # well separated positions, groups interleaved
    pos = []
    while len(pos) < m * len(groups):
        p = rs.uniform(-size, size, 2)
        if all(np.hypot(*(p - o)) > gap for o in pos):
            pos.append(p)
    pos = np.array(pos)
    who = np.repeat(groups, m)
    # own displacements of a spot, without a common shift, scale or rotation in any group
    own = []
    for t in T:
        d = rs.normal(0, .15, pos.shape)
        for g in groups:
            i = who == g
            A = np.column_stack([np.ones(m), pos[i]])
            d[i] -= A @ np.linalg.lstsq(A, d[i], rcond=None)[0]
        own.append(d)
    tabs, order1 = [], None
    for k, t in enumerate(T):
        sel = np.concatenate([rs.permutation(np.flatnonzero(who == g)) for g in t]).astype(int) if t else np.zeros(0, int)
        if rs.random() < .5:
            sel = rs.permutation(sel)
        xy = pos[sel] + own[k][sel]
        if k:
            r, s = np.radians(rs.uniform(-.03, .03)), 1 + rs.uniform(-3e-4, 3e-4)
            if xk == 'X_FP':
                r, s = 4 * r, 1 + 4 * (s - 1)
            xy = s * xy @ np.array([[np.cos(r), np.sin(r)], [-np.sin(r), np.cos(r)]]) + rs.uniform(-1.5, 1.5, 2)
        tab = Table({xk: xy[:, 0], 'COUNTS': rs.uniform(1e4, 1e5, len(sel)), yk: xy[:, 1], 'ID': sel, 'NAME': ['s%d' % i for i in sel]} if len(sel) else
                    {xk: np.zeros(0), 'COUNTS': np.zeros(0), yk: np.zeros(0), 'ID': np.zeros(0, int), 'NAME': np.zeros(0, 'U4')})
        if k == 0:
            order1, first = sel, xy
            tab.meta['A'] = 'b'
        tabs.append(tab)
    keep = [t.copy() for t in tabs]
    common = set(T[0]).intersection(*T)
    try:
        out = average_coordinates(tabs, xk, yk)
        rc = 'ok'
    except Exception:
        rc = 'error'
    e = {'op': 'aver', 'T': T, 'rc': rc, 'n': len(order1), 'tol': 40, 'rows': [], 'others': True, 'pure': True}
    e['pure'] = all(t.colnames == o.colnames and all(np.array_equal(t[c], o[c]) for c in t.colnames) for t, o in zip(tabs, keep))
    if rc == 'ok':
        e['others'] = bool(out.colnames == keep[0].colnames and len(out) == len(keep[0]) and all(np.array_equal(out[c], keep[0][c]) for c in ('COUNTS', 'ID', 'NAME')))
        mean = np.mean([d for d in own], axis=0)
        for i in range(min(len(out), len(order1))):
            s = order1[i]
            d = mean[s] - own[0][s]
            e['rows'].append({'g': int(who[s]), 'x': q(out[xk][i] - first[i, 0], 1e4), 'y': q(out[yk][i] - first[i, 1], 1e4), 'mx': q(d[0], 1e4), 'my': q(d[1], 1e4)})
    return [e]


# ---------------------------------------------------------------- corrections
def corr(a):
    n, seed, case = a
    rs = np.random.default_rng([seed, 244, n])
    from desimeter.simplecorr import SimpleCorr
    c = SimpleCorr()
    field = float(rs.choice([400., .03, 3000.]))
    data = {}
    for k in 'ABC':
        m = int(rs.integers(4, 40))
        x, y = rs.uniform(-field, field, (2, m))
        if rs.random() < .3:
            x += 2 * field
        big = rs.random() < .4
        r = np.radians(float(rs.choice([0., 90., 180., -90., rs.uniform(-180, 180)])) if big else rs.uniform(-1, 1))
        off = rs.uniform(-1, 1, 2) * field * .05
        S = np.eye(2) + np.array([[rs.uniform(-1, 1), 0], [0, rs.uniform(-1, 1)]]) * (.05 if big else .002)
        S[0, 1] = S[1, 0] = rs.uniform(-1, 1) * (.03 if big else .001)
        R = np.array([[np.cos(r), -np.sin(r)], [np.sin(r), np.cos(r)]])
        data[k] = (x, y, R, S, off)
    last = None
    ev = []
    for op, k in case['h']:
        e = {'op': 'corr', 'kind': op, 'rc': 'ok', 'h': case['h'], 'res': 0, 'back': 0, 'n': 0, 'nmatch': 0, 'rms': 0, 'rms0': 0, 'unit': 0}
        try:
            if op == 'copy':
                c = SimpleCorr.fromjson(c.tojson())
                e['kind'] = last[0]
            else:
                x, y, R, S, off = data[k]
                M = R if op == 'solid' else S @ R
                u, v = M @ np.array([x, y]) + off[:, None]
                # noise without effect on the fit
                A = np.column_stack([np.ones(len(x)), x, y])
                noise = rs.normal(0, 1e-4 * field, (2, len(x)))
                B = np.concatenate([np.column_stack([np.ones(len(x)), np.zeros(len(x)), x, -y, y * 0 + 0, x * 0]), np.column_stack([np.zeros(len(x)), np.ones(len(x)), y, x, x * 0, y * 0])])
                for w in noise:
                    w -= A @ np.linalg.lstsq(A, w, rcond=None)[0]
                args = [np.array(t) for t in (x, y, u + noise[0], v + noise[1])]
                before = [t.copy() for t in args]
                if op == 'solid' and rs.random() < .5:
                    c.fit_rotoff(*args)
                else:
                    c.fit(*args, solid=op == 'solid')
                if any(not np.array_equal(s, t) for s, t in zip(args, before)):
                    e['rc'] = 'inputs'
                last = (op, M, off, len(x), rms(*noise))
            op_, M, off, m, r0 = last
            px, py = rs.uniform(-field, field, (2, 9))
            ex = M @ np.array([px, py]) + off[:, None]
            gx, gy = c.apply(px, py)
            bx, by = c.apply_inverse(gx, gy)
            e.update(res=top(np.append(gx - ex[0], gy - ex[1]) / field, 1e9), back=top(np.append(bx - px, by - py) / field, 1e9), n=m, nmatch=int(c.nmatch),
                     rms=top(c.rms / field, 1e9), rms0=top(r0 / field, 1e9), unit=top([c.sxx - 1, c.syy - 1, c.sxy], 1e9))
        except Exception:
            e['rc'] = 'error'
        ev.append(e)
    return ev


# ---------------------------------------------------------------- turbulence
def smooth(rs, x, y, amp, ll, curlfree=False):
    ph, k = rs.uniform(0, 2 * np.pi, 8), rs.normal(0, 1 / ll, (8, 2))
    if curlfree:
        f = sum(-k[i, 0] * ll * np.sin(k[i, 0] * x + k[i, 1] * y + ph[i]) for i in range(8)) * amp / 2
        g = sum(-k[i, 1] * ll * np.sin(k[i, 0] * x + k[i, 1] * y + ph[i]) for i in range(8)) * amp / 2
    else:
        f = sum(np.cos(k[i, 0] * x + k[i, 1] * y + ph[i]) for i in range(4)) * amp / np.sqrt(2)
        g = sum(np.cos(k[i, 0] * x + k[i, 1] * y + ph[i]) for i in range(4, 8)) * amp / np.sqrt(2)
    return f, g


def plane(rs, n):
    s = int(np.ceil(np.sqrt(n)))
    i, j = np.divmod(rs.permutation(s * s)[:n], s)
    return (i - s / 2) * 10.4 + rs.uniform(-3, 3, n), (j - s / 2) * 10.4 + rs.uniform(-3, 3, n)


def turb(a):
    n, seed, how = a
    rs = np.random.default_rng([seed, 245, n])
    hush()
    from desimeter import turbulence as tb
    m = int(rs.integers(70, 150))
    amp, ll, noise = float(rs.uniform(.015, .06)), float(rs.uniform(110, 300)), float(rs.choice([.001, .003]))
    x0, y0 = plane(rs, m)
    curl = how.startswith('grad')
    f, g = smooth(rs, x0, y0, amp, ll, curl)
    nx, ny = rs.normal(0, noise, (2, m))
    moved = np.zeros(0, int)
    if how in ('gp', 'pol') and rs.random() < .5:
        # fibers with an offset of their own keep it
        moved = rs.permutation(m)[:1]
        nx[moved] += rs.choice([-1, 1]) * .15
    x, y = x0 + f + nx, y0 + g + ny
    still = np.arange(m)[::2]
    # windows down to few neighbours
    win = int(rs.choice([50, 50, 25, 22, 20]))
    e = {'op': 'field', 'how': how, 'rc': 'ok', 'pure': True, 'moved': [], 'share': 700 if how == 'pol' else 300, 'before': 0, 'after': 0, 'noise': 0}
    data = np.zeros(m, dtype=[('x', 'f8'), ('y', 'f8'), ('dx', 'f8'), ('dy', 'f8')])
    data['x'], data['y'], data['dx'], data['dy'] = x, y, x - x0, y - y0
    p = rs.permutation(m)
    rest = np.setdiff1d(np.arange(m), moved)
    ev = [e]

    def run(i):
        """estimated field at the fibers, everything given in the order i"""
        X, Y, X0, Y0, d = x[i], y[i], x0[i], y0[i], data[i]
        inputs = [v.copy() for v in (X, Y, X0, Y0, d)]
        if how == 'gp':
            u, v = tb.correct(X, Y, X0, Y0)
            r = X - u, Y - v
        elif how == 'pol':
            u, v = tb.correct_with_pol(X, Y, X0, Y0, **({} if win == 50 else dict(win=win)))
            r = X - u, Y - v
        elif how == 'stat':
            s = np.isin(i, still)
            r = tb.correct_using_stationary(X[s], Y[s], X0[s], Y0[s], X, Y)
        elif how == 'indep':
            r = tb.solve_independent(d, **[dict(), dict(fix_covar=True), dict(predict_at=(X, Y)), dict(excludeself=True), dict(fix_covar=True, predict_at=(X, Y))][n % 5])[:2]
        else:
            r = tb.solve_gradwavefront(d, **[dict(), dict(fix_covar=True), dict(predict_at=(X, Y)), dict(excludeself=True), dict(fix_covar=True, predict_at=(X, Y))][n % 5])[:2]
        e['pure'] = e['pure'] and all(np.array_equal(s, t) for s, t in zip(inputs, (X, Y, X0, Y0, d)))
        return r
    try:
        ident = np.arange(m)
        u, v = run(ident)
        e.update(before=top(rms(f, g), 1e7), after=top(rms((u - f)[rest], (v - g)[rest]), 1e7), noise=top(noise, 1e7) * (1 if not len(moved) else 6),
                 moved=[[q(nx[i], 1e6), q(x[i] - u[i] - x0[i], 1e6)] for i in moved])
        if noise * 5 > rms(f, g):
            e['noise'] *= 2
        u2, v2 = run(p)
        d = np.concatenate([u2 - u[p], v2 - v[p]])
        if how != 'pol':    # its choice of degrees splits the fibers by their rank
            ev.append({'op': 'same', 'how': 'order', 'what': how, 'd': [top(d, 1e7)], 'tol': 200})
        if how == 'grad' and n % 5 in (0, 2, 3):
            e['op'] = 'search'  # the search for the covariance may end in a local minimum
    except Exception:
        e['rc'] = 'error'
    return ev


def stationary(a):
    n, seed, case = a
    rs = np.random.default_rng([seed, 246, n])
    hush()
    from desimeter import turbulence as tb
    F = case['F']
    fill = 60
    m = len(F) + fill
    x0, y0 = plane(rs, m)
    kinds = F + ['still'] * fill
    i = rs.permutation(m)
    kinds = [kinds[k] for k in i]
    # a field of the size of the limit hides fibers that moved by a bit more
    strong = bool(rs.random() < .5)
    f, g = smooth(rs, x0, y0, *([rs.uniform(.012, .024), rs.uniform(150, 250)] if strong else [rs.uniform(.001, .004), rs.uniform(200, 400)]))
    nx, ny = rs.uniform(-.001, .001, (2, m))
    clip = .01 if strong else float(rs.choice([.01, .01, .03]))
    for k, kind in enumerate(kinds):
        if kind == 'far':
            nx[k] += 5.
        elif kind == 'apart':
            t = float(rs.choice([0., 90., 180., 270., rs.uniform(0, 360)]))
            nx[k] += (3.5 if strong else 2.5) * clip * np.cos(np.radians(t))
            ny[k] += (3.5 if strong else 2.5) * clip * np.sin(np.radians(t))
    x, y = x0 + f + nx, y0 + g + ny
    for k, kind in enumerate(kinds):
        if kind == 'lost':
            v = [x, y, x0, y0][int(rs.integers(4))]
            v[k] = [np.nan, np.inf][int(rs.integers(2))]
    xc, yc = plane(rs, 30)
    try:
        u, v, good = tb.correct_using_stationary(x, y, x0, y0, xc, yc, clip_resid=clip, return_good=True)
        rc, mask = 'ok', [bool(b) for b in good]
        if len(mask) != m or len(u) != 30 or len(v) != 30 or not np.isfinite(u).all():
            rc = 'error'
    except Exception:
        rc, mask = 'error', []
    return [{'op': 'still', 'F': kinds, 'mask': mask, 'rc': rc, 'clip': q(clip, 1e6), 'strong': strong}]


def solve(a):
    n, seed, work = a
    rs = np.random.default_rng([seed, 247, n])
    hush()
    from astropy.table import Table
    from desimeter import turbulence as tb
    m = int(rs.integers(70, 120))
    x0, y0 = plane(rs, m)
    loc = rs.permutation(np.arange(1000, 9000))[:m]
    f, g = smooth(rs, x0, y0, .03, 250., True)
    x, y = x0 + f + rs.normal(0, .001, m), y0 + g + rs.normal(0, .001, m)
    ie = rs.permutation(m)[:m - int(rs.integers(0, 5))]
    im = rs.permutation(m)[:m - int(rs.integers(0, 5))]
    E = Table({'LOCATION': loc[ie], 'X_FP': x0[ie], 'Y_FP': y0[ie]})
    M = Table({'X_FP': x[im], 'Y_FP': y[im], 'LOCATION': loc[im], 'K': np.arange(len(im))})
    for k in range(int(rs.integers(0, 4))):
        M.insert_row(int(rs.integers(0, len(M))), dict(X_FP=rs.uniform(-50, 50), Y_FP=rs.uniform(-50, 50), LOCATION=-1, K=-1))
    pe, pm = [os.path.join(work, 't%d%s.csv' % (n, s)) for s in 'em']
    E.write(pe, overwrite=True)
    M.write(pm, overwrite=True)
    mode = ['independent', 'gradwavefront'][n % 2]
    # pairs by location
    D = tb.make_data(E, M)
    true = {int(k): (a, b, c, d) for k, a, b, c, d in zip(loc, x0, y0, x - x0, y - y0)}
    d = [v for r in D for v in (r['x'] - true[r['location']][0], r['y'] - true[r['location']][1], r['dx'] - true[r['location']][2], r['dy'] - true[r['location']][3])]
    common = sorted(set(loc[ie].tolist()) & set(loc[im].tolist()))
    ev = [{'op': 'same', 'how': 'rows', 'what': 'make_data', 'd': [top(d, 1e9), 0 if sorted(D['location'].tolist()) == common else 10 ** 6], 'tol': 10}]
    e = {'op': 'solve', 'rc': 'ok', 'loc': [], 'known': [], 'expected': [int(v) for v in loc[ie]], 'given': [int(v) for v in M['LOCATION']], 'sums': 0, 'mode': mode}
    try:
        out, res = tb.solve_files(pe, pm, mode, **[dict(), dict(fix_covar=True)][max(n % 2, n // 2 % 2)])
        e['loc'] = [int(v) for v in out['LOCATION']]
        e['known'] = [bool(np.isfinite(v) and np.isfinite(w)) for v, w in zip(out['XNEW'], out['YNEW'])]
        ok = np.array(e['known'])
        e['sums'] = top(np.concatenate([(out['X_FP'] - out['DXTURB'] - out['XNEW'])[ok], (out['Y_FP'] - out['DYTURB'] - out['YNEW'])[ok], out['X_FP'] - M['X_FP'], out['Y_FP'] - M['Y_FP']]), 1e9)
        k = {int(v): i for i, v in enumerate(loc)}
        w = [k[int(v)] for v in out['LOCATION'][ok]]
        ev.append({'op': 'field', 'how': 'files ' + mode, 'rc': 'ok', 'pure': True, 'moved': [], 'share': 250, 'before': top(rms(f, g), 1e7),
                   'after': top(rms(out['DXTURB'][ok] - f[w], out['DYTURB'][ok] - g[w]), 1e7), 'noise': top(.001, 1e7)})
    except Exception:
        e['rc'] = 'error'
    os.unlink(pe)
    os.unlink(pm)
    # the empirical covariance: a value per bin, distance zero is the variance
    edges = np.array([0., 1e-6, 20., 60.]) if n % 2 else None
    bins = 3 if n % 2 else 10
    c, vx, vy = tb.empirical_covariance(D, edges=edges)
    bad = 0 if len(c) == len(vx) == len(vy) == bins else 10 ** 6
    if n % 2:
        bad += top([vx[0] / np.mean(D['dx'] ** 2) - 1, vy[0] / np.mean(D['dy'] ** 2) - 1], 1e6)
    ev.append({'op': 'same', 'how': 'bins', 'what': 'empirical_covariance', 'd': [bad], 'tol': 100})
    return ev + [e]


def run(ck):
    rng, th = ck.rng, ck.thorough
    A = ck.model('AverageModel', workers=8, constants={'NKeys': 4} if th else None).cases()
    for f in ('order', 'rows', 'uncut'):
        ck.refuted('AverageModel', workers=4, constants={'Flaw': '"%s"' % f})
    P = ck.model('PairModel', workers=8).cases()
    for f in ('unsorted', 'nearest'):
        ck.refuted('PairModel', workers=4, constants={'Flaw': '"%s"' % f})
    S = ck.model('StillModel', workers=8, constants={'N': 6} if th else None).cases()
    for f in ('positions', 'last'):
        ck.refuted('StillModel', workers=4, constants={'Flaw': '"%s"' % f})
    C = ck.model('CorrModel', workers=8).cases()
    for f in ('rot', 'scale'):
        ck.refuted('CorrModel', workers=4, constants={'Flaw': '"%s"' % f})
    some = lambda L, k: rng.sample(L, min(len(L), k))
    # repeated keys in the first list
    P2 = [dict(c, a=c['a'] + [rng.choice(c['a'])]) for c in some([c for c in P if c['a']], 60)]
    work = [(pair, [(i, ck.seed, c) for i, c in enumerate(P + P2)]),
            (near, [(i, ck.seed) for i in range(6000 if th else 600)]),
            (average, [(i, ck.seed, c) for i, c in enumerate(some([c for c in A if set(c['T'][0]).intersection(*c['T'])], 6000 if th else 400) + some([c for c in A if not set(c['T'][0]).intersection(*c['T'])], 40))]),
            (corr, [(i, ck.seed, c) for i, c in enumerate(some(C, 2058 if th else 500))]),
            (stationary, [(i, ck.seed, c) for i, c in enumerate(some(S, 1024 if th else 320))]),
            (solve, [(i, ck.seed, ck.work) for i in range(300 if th else 24)]),
            (turb, [(i, ck.seed, ['gp', 'pol', 'stat', 'indep', 'grad', 'pol'][i // 5 % 6]) for i in range(1800 if th else 180)])]
    ev = []
    with Pool(8, initializer=quiet) as pool:
        R = [pool.map_async(f, j, chunksize=max(1, min(40, len(j) // 40))) for f, j in work]
        for r in R:
            ev += [e for es in r.get() for e in es]
    # searches that may end in a local minimum are judged together
    found = [e for e in ev if e['op'] == 'search']
    ev = [e for e in ev if e['op'] != 'search']
    ev.append({'op': 'most', 'found': sum(1 for e in found if e['rc'] == 'ok' and e['after'] <= .3 * e['before'] + 2 * e['noise']), 'of': len(found), 'part': 40})
    pol = [e for e in ev if e['op'] == 'field' and e['how'] == 'pol']
    ev.append({'op': 'most', 'found': sum(1 for e in pol if e['rc'] == 'ok' and e['after'] <= .08 * e['before'] + 2 * e['noise']), 'of': len(pol), 'part': 87})
    ck.cov['events'] = {k: sum(1 for e in ev if e['op'] == k) for k in sorted({e['op'] for e in ev})}
    ck.sample({'average': A[0], 'pair': P[0], 'still': S[0], 'corr': C[0]})
    ck.judge('AverageTrace', ev, lambda e, c: (e['op'] + ' ' + str(e.get('how', '')) + ' ' + c, e), chunk=1500)
    ck.assumptions = ['relative shift between averaged tables below half the distance of spots and below the match radius of 5', 'turbulence simulated with a correlation length above 110 mm on 70 or more fibers, noise of 1 micron or more']
