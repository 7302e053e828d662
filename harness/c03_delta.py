"""C03: directed rotation between two angles (spec/AngleModel.tla)."""
import numpy as np
from common import q as proj


def run(ck):
    from desimeter.transform.pos2ptl import delta_angle
    ck.model('AngleModel', workers=4, constants={
        'Step': 22500 if ck.thorough else 45000, 'Span': 40 if ck.thorough else 20})
    # exhaustive lattice (exactly representable angles), then random eighths of a degree
    step = 22.5 if ck.thorough else 45.
    span = 40 if ck.thorough else 20
    lattice = [k * step for k in range(-span, span + 1)]
    triples = [(a, b, d) for a in lattice for b in lattice for d in (-1, 0, 1)]
    rng = ck.rng
    for _ in range(20000 if ck.thorough else 6000):
        triples.append((rng.randint(-8000, 8000) / 8, rng.randint(-8000, 8000) / 8, rng.choice([-1, 0, 1])))
    # almost, but not exactly, whole turns (millidegrees away)
    for _ in range(4000 if ck.thorough else 1200):
        a = rng.choice([0., rng.randint(-4000, 4000) / 8])
        m = rng.choice([-1, 1]) * rng.choice([1, 2, 5, 8, 20, 60, 125, 400, 999])
        triples.append((a, a + 360 * rng.randint(-4, 4) + m / 1000, rng.choice([-1, 0, 1])))
    rng.shuffle(triples)
    S = np.array([t[0] for t in triples])
    F = np.array([t[1] for t in triples])
    D = np.array([t[2] for t in triples])
    n = len(triples)
    got = [[] for _ in range(n)]

    def record(fn, idx):
        try:
            r = np.asarray(fn())
            if r.shape != (len(idx),):
                raise ValueError('shape %s' % (r.shape,))
            vals = [proj(v, 1000) for v in r]
        except Exception:
            vals = [1900000001] * len(idx)
        for i, v in zip(idx, vals):
            got[i].append(v)
    allidx = range(n)
    keep = [x.copy() for x in (S, F, D)]
    record(lambda: delta_angle(S, F, D), allidx)
    record(lambda: delta_angle(list(S), list(F), list(D)), allidx)
    record(lambda: delta_angle(tuple(S), tuple(F), tuple(D)), allidx)
    record(lambda: delta_angle(u_start=S, u_final=F, direction=3 * D), allidx)  # any sign
    pure = all(np.array_equal(a, b) for a, b in zip(keep, (S, F, D)))
    if not pure:
        ck.violate('inputs-modified', {'call': 'delta_angle'})
    for d in (-1, 0, 1):
        idx = np.flatnonzero(D == d)
        record(lambda: delta_angle(S[idx], F[idx], d), idx)
        if d == 0:
            record(lambda: delta_angle(S[idx], F[idx]), idx)
    for s in lattice[::3]:
        idx = np.flatnonzero(S == s)
        record(lambda: delta_angle(s, F[idx], D[idx]), idx)
        idx = np.flatnonzero(F == s)
        record(lambda: delta_angle(S[idx], s, D[idx]), idx)
    for i in list(allidx)[:1500]:
        t = triples[i]
        record(lambda: delta_angle(t[0], t[1], t[2]), [i])
        if all(float(v).is_integer() for v in t):
            record(lambda: delta_angle(int(t[0]), int(t[1]), t[2]), [i])
            record(lambda: delta_angle([int(t[0])], [int(t[1])], t[2]), [i])
    events = [{'s': proj(t[0], 1000), 'f': proj(t[1], 1000), 'd': t[2], 'got': g} for t, g in zip(triples, got)]
    ck.sample(events[0])
    ck.judge('AngleTrace', events, lambda e, c: (c, e), chunk=6000)
    ck.assumptions = ['angles are multiples of 1/8 degree, so that the arithmetic of the code is exact, or differ from whole turns by at least a millidegree']
