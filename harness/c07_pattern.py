"""C07: pattern matching through triangles (spec/TriModel.tla, TriTrace.tla)."""
import itertools, logging
import numpy as np
from common import q


def feats(x, y):
    """the triangles of a list, vertices in order of abscissa"""
    o = np.argsort(x, kind='stable')
    out = []
    for a, b, c in itertools.combinations(o, 3):
        P = [(x[i], y[i]) for i in (a, b, c)]
        L = sorted(np.hypot(P[i][0] - P[j][0], P[i][1] - P[j][1]) for i, j in ((0, 1), (1, 2), (0, 2)))
        u = (P[1][0] - P[0][0], P[1][1] - P[0][1])
        v = (P[2][0] - P[0][0], P[2][1] - P[0][1])
        if L[0] == 0:
            return None
        out.append([int(a), int(b), int(c), min(q(L[2] / L[0], 1e4), 10 ** 7), q((u[0] * v[0] + u[1] * v[1]) / np.hypot(*u) / np.hypot(*v), 1e4),
                    q(u[0] / np.hypot(*u), 1e4)])
    return out


def one(M, rng, x1, y1, extra, rot, jitter, spur=0):
    """list two: shifted, scaled, turned, shuffled copy of list one with
    additional points; list one may have spurious points"""
    n = len(x1)
    x = np.append(x1, [e[0] for e in extra])
    y = np.append(y1, [e[1] for e in extra])
    c, s = np.cos(rot), np.sin(rot)
    sc = rng.choice([1., 12., .003, 250.])
    X = sc * (c * x - s * y) + rng.choice([0., 33., -2500.]) * rng.choice([1, sc])
    Y = sc * (s * x + c * y) + rng.choice([0., 11., 4000.]) * rng.choice([1, sc])
    size = np.ptp(x1) if n else 1
    X = X + sc * size * jitter * np.array([rng.uniform(-1, 1) for _ in X])
    Y = Y + sc * size * jitter * np.array([rng.uniform(-1, 1) for _ in X])
    perm2 = list(range(len(x)))
    rng.shuffle(perm2)
    perm1 = list(range(n))
    rng.shuffle(perm1)
    X2, Y2 = X[perm2], Y[perm2]
    A, B = np.array(x1, float)[perm1] if n else np.array([]), np.array(y1, float)[perm1] if n else np.array([])
    truth = [perm2.index(i) for i in perm1]
    for _ in range(spur):
        A = np.append(A, rng.uniform(min(x1), max(x1)))
        B = np.append(B, rng.uniform(min(y1), max(y1)))
        truth.append(-1)
    e = {'truth': truth, 'n2': len(X2), 'rot': rot, 'jitter': jitter, 'x1': A.tolist(), 'y1': B.tolist(), 'x2': X2.tolist(), 'y2': Y2.tolist()}
    e['f1'], e['f2'] = feats(A, B), feats(X2, Y2)
    if e['f1'] is None or e['f2'] is None:
        return None
    if rng.random() < .3:
        from astropy.table import Column
        args = [Column(v) for v in (A, B, X2, Y2)]
    else:
        args = [A, B, X2, Y2]
    keep = [np.array(v) for v in args]
    try:
        idx, d = M.match_arbitrary_translation_dilatation(*args)
        e['idx'] = [int(i) for i in idx]
        e['pure'] = all(np.array_equal(a, b) for a, b in zip(args, keep)) and len(d) == len(idx)
    except Exception as exc:
        e['exc'] = repr(exc)[:100]
    return e


def run(ck):
    from desimeter import match as M
    from common import metrology
    import desimeter.log
    desimeter.log.get_logger().setLevel(logging.ERROR)
    rng = ck.rng
    ck.model('TriModel', workers=4, constants={'N1': 4, 'N': 6, 'Spur': 0, 'EmitCases': 'FALSE'})
    if ck.thorough:
        ck.model('TriModel', workers=8, constants={'N1': 5, 'N': 6, 'Spur': 0, 'EmitCases': 'FALSE'})
    cases = ck.model('TriModel', workers=8, constants={'N1': 3, 'N': 4, 'Spur': 1, 'EmitCases': 'TRUE'}).cases()
    ck.cov['patterns'] = len(cases)
    rng.shuffle(cases)
    ev = []
    for p, x in cases if ck.thorough else cases[:900]:
        pts = [list(t) for t in p]
        e = one(M, rng, [t[0] for t in pts], [t[1] for t in pts], [x] if x else [], rng.choice([0., 0., 1e-4]), 0.)
        if e:
            ev.append(e)
    # real fiducials, seen with noise, a small turn, more or fewer spots
    met = metrology()
    met = met[(met['DEVICE_TYPE'] == 'FIF') | (met['DEVICE_TYPE'] == 'GIF')]
    locs = sorted(set(int(v) for v in met['LOCATION']))
    for _ in range(4000 if ck.thorough else 500):
        if rng.random() < .4:
            s = met['LOCATION'] == rng.choice(locs)
            x, y = np.array(met['X_FP'][s]), np.array(met['Y_FP'][s])
            x, y = x - x.mean(), y - y.mean()
        else:
            n = rng.choice([0, 1, 2, 3, 3, 4, 5, 6])
            x, y = np.array([rng.uniform(-1, 1) for _ in range(n)]), np.array([rng.uniform(-1, 1) for _ in range(n)])
        ex = [(rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5)) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        e = one(M, rng, x, y, ex, rng.choice([0., 1e-4, -1e-3, 5e-3, .02]), rng.choice([0., 0., 1e-5, 1e-3]), spur=rng.choice([0, 0, 0, 1, 2]) if len(x) > 1 else 0)
        if e:
            ev.append(e)
            if rng.random() < .2 and e['n2'] > 2:      # second list too short
                k = rng.randrange(3)
                idx, d = M.match_arbitrary_translation_dilatation(np.array(e['x1']), np.array(e['y1']), np.array(e['x2'][:k]), np.array(e['y2'][:k]))
                ev.append({'truth': [-1] * len(e['x1']), 'n2': k, 'f1': [], 'f2': [], 'idx': [int(i) for i in idx], 'pure': True})
    ck.sample({k: v for k, v in ev[0].items() if k not in ('f1', 'f2')})
    ck.judge('TriTrace', ev, lambda e, c: (c, {k: v for k, v in e.items() if k not in ('f1', 'f2')}), chunk=400)
    ck.assumptions = ['a correspondence is claimed only where no other triangle of the second list is as similar (computed by the trace specification)']
