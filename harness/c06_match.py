"""C06: matching in one coordinate system (spec/MatchModel.tla, MatchTrace.tla)."""
import numpy as np
from common import q


def one(M, p, r, uniq, rng, kind):
    """the code's view of integer points: scaled and shifted exactly"""
    s = rng.choice([1., .25, 8., .0078125])
    ox, oy = rng.choice([0., -37., 1024.]), rng.choice([0., 5., -512.])

    def arr(pts, k):
        a = np.array([t[k] for t in pts], float) * s + (ox, oy)[k]
        if kind == 'column':
            from astropy.table import Column
            return Column(a)
        return a.tolist() if kind == 'list' else a
    args = [arr(p, 0), arr(p, 1), arr(r, 0), arr(r, 1)]
    keep = [np.array(a) for a in args]
    e = {'p': p, 'r': r, 'uniq': uniq, 'kind': kind}
    try:
        idx, d = M.match_same_system(*args, **({} if uniq and rng.random() < .7 else {'remove_duplicates': uniq}))
        e['idx'] = [int(i) for i in idx]
        e['d2'] = [-1 if x == np.inf else q((x / s) ** 2, 1) for x in d]
        if any(abs((x / s) ** 2 - k) > 1e-3 * (1 + abs(k)) for x, k in zip(d, e['d2']) if k >= 0):
            e['d2'] = [-7 for _ in d]
        e['pure'] = all(np.array_equal(a, b) for a, b in zip(args, keep))
    except Exception as exc:
        e['exc'] = repr(exc)[:100]
    return e


def lists(rng, big):
    """crowded and sparse integer point lists"""
    n1, n2 = rng.randrange(0, big), rng.randrange(0, big)
    ext = rng.choice([4, 12, 60, 3000])
    f = lambda: [rng.randrange(ext), rng.randrange(ext)]
    r = [f() for _ in range(n2)]
    p = []
    for _ in range(n1):
        if r and rng.random() < .7:
            b = rng.choice(r)
            w = rng.choice([0, 1, 3, 40])
            p.append([b[0] + rng.randint(-w, w), b[1] + rng.randint(-w, w)])
        else:
            p.append(f())
    return p, r


def run(ck):
    from desimeter import match as M
    rng = ck.rng
    cases = ck.model('MatchModel', workers=4, constants={'Max1': 3, 'Max2': 2, 'GX': 2, 'GY': 1}).cases()
    cases += ck.model('MatchModel', workers=4, constants={'Max1': 3, 'Max2': 3, 'GX': 3, 'GY': 0}).cases()
    if ck.thorough:
        cases += ck.model('MatchModel', workers=8, constants={'Max1': 4, 'Max2': 3, 'GX': 3, 'GY': 0}).cases()
    rng.shuffle(cases)
    if not ck.thorough:
        cases = cases[:4500]
    ev = [one(M, p, r, u, rng, rng.choice(['array', 'array', 'list', 'column'])) for p, r in cases for u in (True, False)]
    for _ in range(3000 if ck.thorough else 500):
        p, r = lists(rng, rng.choice([5, 12, 12, 30]))
        ev.append(one(M, p, r, rng.random() < .85, rng, rng.choice(['array', 'list', 'column'])))
    for _ in range(40 if ck.thorough else 8):
        p, r = lists(rng, 250)
        ev.append(one(M, p, r, True, rng, 'array'))
    rng.shuffle(ev)
    ck.cov['lattice_cases'] = len(cases)
    ck.sample(ev[0])
    ck.judge('MatchTrace', ev, lambda e, c: (c, e), chunk=1500)
    ck.assumptions = ['finite coordinates; distances compared exactly (integer points, scaled by powers of two)']
