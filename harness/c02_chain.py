"""C02: the coordinate chain of a positioner (spec/ChainGraph.tla, ChainTrace.tla)."""
import numpy as np
from common import q as proj
from frames import call, KINDS


def run(ck):
    from desimeter.transform import pos2ptl as pp
    r = ck.model('ChainGraph', workers=4, constants={'MaxLen': 5 if ck.thorough else 4})
    walks = r.cases()
    rng = ck.rng
    if not ck.thorough:
        rng.shuffle(walks)

    pair = lambda f: (lambda a, b, oa, ob: (f(a, oa), f(b, ob)))
    FN = {
        'int2ext': (pair(pp.int2ext), ('to', 'po')),
        'ext2int': (pair(pp.ext2int), ('to', 'po')),
        'ext2loc': (lambda t, p, r1, r2: pp.ext2loc(t, p, r1, r2), ('r1', 'r2')),
        'loc2ext': (lambda x, y, r1, r2, to, po: pp.loc2ext(x, y, r1, r2, to, po), ('r1', 'r2', 'to', 'po')),
        'loc2ext_guess': (lambda x, y, r1, r2, to, po, gx, tol: pp.loc2ext(x, y, r1, r2, to, po, gx, tol),
                          ('r1', 'r2', 'to', 'po', 'gx', 'tol')),
        'loc2flat': (pair(pp.loc2flat), ('xo', 'yo')),
        'flat2loc': (pair(pp.flat2loc), ('xo', 'yo')),
        'flat2ptl': (lambda x, y: pp.flat2ptl(x, y), ()),
        'ptl2flat': (lambda x, y: pp.ptl2flat(x, y), ()),
        'int2loc': (lambda t, p, r1, r2, to, po: pp.int2loc(t, p, r1, r2, to, po), ('r1', 'r2', 'to', 'po')),
        'loc2int': (lambda x, y, r1, r2, to, po: pp.loc2int(x, y, r1, r2, to, po), ('r1', 'r2', 'to', 'po')),
        'loc2int_guess': (lambda x, y, r1, r2, to, po, gi, tol: pp.loc2int(x, y, r1, r2, to, po, gi, tol),
                          ('r1', 'r2', 'to', 'po', 'gi', 'tol')),
        'int2ptl': (lambda t, p, r1, r2, to, po, xo, yo: pp.int2ptl(t, p, r1, r2, to, po, xo, yo),
                    ('r1', 'r2', 'to', 'po', 'xo', 'yo')),
        'ptl2int': (lambda x, y, r1, r2, to, po, xo, yo: pp.ptl2int(x, y, r1, r2, to, po, xo, yo),
                    ('r1', 'r2', 'to', 'po', 'xo', 'yo')),
        'ptl2int_guess': (lambda x, y, r1, r2, to, po, xo, yo, gi, tol:
                          pp.ptl2int(x, y, r1, r2, to, po, xo, yo, gi, tol),
                          ('r1', 'r2', 'to', 'po', 'xo', 'yo', 'gi', 'tol')),
    }
    TO = {'int2ext': 'ext', 'ext2int': 'int', 'ext2loc': 'loc', 'loc2ext': 'ext', 'loc2ext_guess': 'ext',
          'loc2flat': 'flat', 'flat2loc': 'loc', 'flat2ptl': 'ptl', 'ptl2flat': 'flat', 'int2loc': 'loc',
          'loc2int': 'int', 'loc2int_guess': 'int', 'int2ptl': 'ptl', 'ptl2int': 'int', 'ptl2int_guess': 'int'}
    ANG = {'int', 'ext'}

    def batch(n, need_guess_only, shared, coarse):
        """n points with distinct parameters"""
        par = {k: [] for k in ('r1', 'r2', 'to', 'po', 'xo', 'yo', 'gi', 'gx', 'tol')}
        T, P = [], []
        first = None
        for i in range(n):
            if first is None or not shared:
                r1 = rng.randint(2600, 3400)
                r2 = rng.choice([r1, rng.randint(2600, 3400)])
                to = rng.choice([0, rng.uniform(-180, 180)])
                po = rng.choice([0, rng.uniform(-20, 20)])
                rad = rng.uniform(37, 400)
                ang = rng.uniform(-np.pi, np.pi)
                first = (r1 / 1000, r2 / 1000, round(to, 4), round(po, 4),
                         round(rad * np.cos(ang), 4), round(rad * np.sin(ang), 4))
            r1, r2, to, po, xo, yo = first
            # external phi in (0, 180) is what is recovered without a guess;
            # with a guess, phi beyond the straight and folded positions too
            outside = need_guess_only and rng.random() < .6
            while True:
                m = 12 if coarse else 1
                pe = (rng.choice([rng.uniform(-19.8, -m), rng.uniform(180 + m, 199.8)]) if outside
                      else rng.uniform(2 * m, 180 - 2 * m))
                if -19.9 < pe - po < 199.9:
                    break
            t = round(rng.choice([rng.uniform(-179.9, 179.9), rng.choice([-90, 0, 90, 179.99, -179.99])]), 3)
            p = round(pe - po, 3)
            T.append(t)
            P.append(p)
            # the primary and mirrored solutions differ by about |pe|: stay closer than half of it
            sep = min(abs(pe), abs(180 - pe), 30)
            g = round(t + rng.uniform(-.35, .35) * sep, 3)
            for k, v in zip(('r1', 'r2', 'to', 'po', 'xo', 'yo', 'gi', 'gx', 'tol'),
                            (r1, r2, to, po, xo, yo, g, g + to, rng.choice([30., 30., 60.]))):
                par[k].append(v)
        return np.array(T), np.array(P), {k: np.array(v) for k, v in par.items()}

    runs = []
    nbatch = 5
    for wk in walks * (8 if ck.thorough else 6):
        names = wk['w']
        has_plain_inv = any(n in ('loc2ext', 'loc2int', 'ptl2int') for n in names)
        shared = rng.random() < .3
        # flat <-> petal is a pair of polynomial fits good to 0.6 micrometre
        coarse = any('ptl' in n for n in names)
        T, P, par = batch(nbatch, not has_plain_inv, shared, coarse)
        if wk['start'] == 'ext':
            cur = [T + par['to'], P + par['po']]
        else:
            cur = [T, P]
        sysname = wk['start']

        def val(s, comps, i):
            sc = 1e6
            return [proj(c[i], sc) for c in comps]
        ipar = [{'r1': int(round(par['r1'][i] * 1000)), 'r2': int(round(par['r2'][i] * 1000)),
                 'to': proj(par['to'][i], 1e6), 'po': proj(par['po'][i], 1e6),
                 'xo': proj(par['xo'][i], 1e6), 'yo': proj(par['yo'][i], 1e6)} for i in range(nbatch)]
        ev = [[{'op': 'start', 'sys': sysname, 'v': val(sysname, cur, i)}] for i in range(nbatch)]
        for name in names:
            fn, pk = FN[name]
            kind = rng.choice(KINDS)
            pkw = {k: par[k] for k in pk}
            f = lambda *a, **k: fn(*a, *[k[x] for x in pk])
            sh = shared and rng.random() < .5 and not any(k in ('gi', 'gx', 'tol') for k in pk)
            prev = cur
            dest = TO[name]
            try:
                out, pure = call(f, cur, pkw, kind, shared=sh)
            except Exception as exc:
                for i in range(nbatch):
                    ev[i].append({'op': 'step', 'e': name, 'exc': type(exc).__name__, 'msg': str(exc)[:80], 'kind': kind})
                break
            unreach = np.zeros(nbatch, bool)
            if len(out) == 3:
                unreach = np.asarray(out[2], bool)
                out = out[:2]
            for i in range(nbatch):
                ev[i].append({'op': 'step', 'e': name, 'sys': dest, 'v': val(dest, out, i), 'prev': val(dest, prev, i),
                              'tol': ([150000, 150000] if coarse else [400, 400]) if dest in ANG
                              else ([2500, 2500] if coarse else [12, 12]),
                              'mod': [360000000, 360000000] if dest in ANG else [0, 0],
                              'par': ipar[i], 'u': bool(unreach[i]), 'pure': pure, 'kind': kind})
            cur = [np.array(c, float) for c in out]
            sysname = dest
        runs += ev
    ck.cov['walks'] = len(walks)
    ck.sample(runs[0])
    ck.judge_runs('ChainTrace', runs, lambda e, c, rn: ('%s:%s' % (c, e.get('e')), {'event': e, 'run': rn}))
    ck.assumptions = ['points with external phi between 2 and 178 deg without guess, -19..199 with guess']
