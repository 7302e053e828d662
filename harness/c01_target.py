"""C01: resolving a target point into positioner angles (spec/Target*.tla)."""
import math
from common import q as proj


def run(ck):
    from desimeter.transform import xy2tp as mod
    thorough = ck.thorough
    r = ck.model('TargetModel', workers=4, constants={
        'TStep': 15 if thorough else 30, 'PStep': 15 if thorough else 30,
        'RangeSets': '{1,2,3,4,5,6}', 'GuessStep': 19 if thorough else 33})
    cases = r.cases()
    ck.cov['witnesses'] = {
        'several_configurations': sum(1 for c in cases if c['n'] > 1),
        'unreachable': sum(1 for c in cases if c['o']['u']),
        'guess_used': sum(1 for c in cases if c['q']['guess'] and not c['o']['u'])}
    assert all(ck.cov['witnesses'].values())
    events = []

    def call(q, x, y, r1, r2, rg, guess, tol):
        ranges = [[rg[0], rg[1]], [rg[2], rg[3]]]
        try:
            kw = {}
            if guess is not None:
                kw = dict(t_guess=guess, t_guess_tol=tol)
            tp, u = mod.xy2tp([x, y], [r1, r2], ranges, **kw)
            o = {'T': proj(tp[0], 1000), 'P': proj(tp[1], 1000), 'u': bool(u)}
        except Exception as exc:
            o = {'exc': type(exc).__name__}
        events.append({'op': 'resolve', 'q': q, 'o': o, })

    # (1) every behaviour of the model, replayed
    for c in cases:
        q = c['q']
        T0, P0 = math.radians(q['T0'] / 1000), math.radians(q['P0'] / 1000)
        r1, r2 = q['r1'] / 1000, q['r2'] / 1000
        x = r1 * math.cos(T0) + r2 * math.cos(T0 + P0)
        y = r1 * math.sin(T0) + r2 * math.sin(T0 + P0)
        rg = q['rg']
        call(q, x, y, r1, r2, [rg[k] / 1000 for k in ('tlo', 'thi', 'plo', 'phi')],
             q['guess'][0] / 1000 if q['guess'] else None, q['tol'] / 1000)
    nmodel = len(events)
    # (2) generated requests on unequal arms, arbitrary angles and ranges
    rng = ck.rng
    n = 20000 if thorough else 4000
    fixed = [[-180, 180, -20, 200], [-200, 200, -20, 200], [-400, 300, 20, 160],
             [-90, 60, 0, 180], [0, 360, -190, 30], [-179.999, 179.999, -20, 200]]
    for i in range(n):
        r1 = rng.choice([3000, 3000, rng.randint(2500, 3500)])
        r2 = rng.choice([3000, r1, rng.randint(2500, 3500)])
        if rng.random() < .6:
            rg = list(rng.choice(fixed))
        else:
            a = rng.randint(-400, 100)
            b = rng.randint(-200, 60)
            rg = [a, a + rng.randint(20, 640), b, b + rng.randint(30, 300)]
        off = rng.choice([0, 0, rng.randint(-170, 170)])
        rg[0] += off
        rg[1] += off
        kind = rng.choice(['in', 'in', 'in', 'in', 'edge', 'out'])
        T0 = rng.choice([rng.uniform(-180, 180), rng.choice([-180, -135, -90, -45, 0, 45, 90, 135, 180]),
                         rng.choice([rg[0], rg[1]]) + rng.choice([-1, 1, -.01, .01, 0])])
        P0 = rng.choice([rng.uniform(1, 179), rng.choice([.2, 1, 45, 90, 120, 179]),
                         min(179, max(1, rng.choice([rg[2], rg[3]]) + rng.uniform(-1, 1)))])
        if kind == 'edge':
            P0 = rng.choice([0, 180])
            if P0 == 180 and r1 == r2:
                P0 = 0
        T0 = round(T0, 3)
        P0 = round(P0, 3)
        t, p = math.radians(T0), math.radians(P0)
        a, b = r1 / 1000, r2 / 1000
        x = a * math.cos(t) + b * math.cos(t + p)
        y = a * math.sin(t) + b * math.sin(t + p)
        if rng.random() < .1:
            # exactly on an axis: vertical targets make the mirror line infinitely steep
            h = math.hypot(x, y)
            ang = rng.choice([0, 90, 180, -90])
            x, y = {0: (h, 0.), 90: (0., h), 180: (-h, 0.), -90: (0., -h)}[ang]
            T0 = math.degrees(math.radians(ang) - math.atan2(b * math.sin(p), a + b * math.cos(p)))
        outer = False
        if kind == 'out':
            outer = rng.random() < .6 or r1 == r2 or abs(r1 - r2) < 30
            ang = math.radians(round(rng.choice([rng.uniform(-180, 180), 0, 90, 180, -90]), 3))
            rad = (a + b) * rng.choice([1.0005, 1.01, 1.5, 10]) if outer else abs(a - b) * rng.choice([.05, .3, .98])
            x, y = rad * math.cos(ang), rad * math.sin(ang)
            if rad == 0:
                ang = 0.
        else:
            ang = math.atan2(y, x)
        guess, tol = None, 30
        if rng.random() < .6:
            tol = rng.choice([30, 30, 5, 100, 400])
            mirror = 2 * math.degrees(ang) - T0
            guess = round(rng.choice([T0, mirror, T0 - 360, T0 + 360, mirror + 360, mirror - 360, 0,
                                      rng.uniform(-400, 400)]) + rng.choice([0, 1, -1, rng.uniform(-40, 40)]), 3)
        q = {'kind': kind, 'T0': proj(T0, 1000), 'P0': proj(P0, 1000), 'x': proj(x, 10000), 'y': proj(y, 10000),
             'r1': r1, 'r2': r2, 'ang': proj(math.degrees(ang), 1000), 'outer': outer,
             'rg': {k: proj(v, 1000) for k, v in zip(('tlo', 'thi', 'plo', 'phi'), rg)},
             'guess': [] if guess is None else [proj(guess, 1000)], 'tol': proj(tol, 1000)}
        call(q, x, y, a, b, rg, guess, tol)
        if i % 4 == 0:
            fx, fy = mod.tp2xy([T0, P0], [a, b])
            events.append({'op': 'fwd', 'T': proj(T0, 1000), 'P': proj(P0, 1000), 'r1': r1, 'r2': r2,
                           'x': proj(fx, 10000), 'y': proj(fy, 10000)})
    ck.cov['replayed_model_behaviours'] = nmodel
    ck.sample(events[0])
    ck.sample(events[-1])
    ck.judge('TargetTrace', events, lambda e, c: (
        '%s:%s' % (c, e.get('q', {}).get('kind', 'fwd')), e), chunk=3000)
    ck.assumptions = ['angles are compared to 0.003 deg and positions to 1.6 micrometres',
                      'theta ranges narrower than two turns']
