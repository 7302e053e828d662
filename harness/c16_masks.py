"""C16: bit masks (spec/BitMask.tla, BitMaskModel.tla, BitMaskTrace.tla)."""
import operator
import numpy as np

# names, bits as stored in calibration files and in the FLAGS of the instrument
MOVE = ['THETA_STUCK', 'PHI_STUCK', 'FAILED_FIT', 'INVALID_TABLE', 'INVALID_AFTER_FILTER']
POS = {'MATCHED': 0, 'PINHOLE': 1, 'POSITIONER': 2, 'FIDUCIAL': 3, 'FVCERROR': 4, 'BADPOSFID': 5, 'MOVED': 6, 'GIF': 7, 'ETC': 8, 'FITTEDPINHOLE': 9,
       'MATCHEDCENTER': 10, 'AMBIGUOUS': 11, 'FVCPROC': 12, 'ASSIGNED': 14, 'CONVERGED': 15, 'NOTCTLENABLED': 16, 'BROKENFIBER': 17, 'COMERROR': 18,
       'OVERLAP': 19, 'FROZEN': 20, 'UNREACHABLE': 21, 'BOUNDARYVIOLATION': 22, 'MULTIPLEREQUESTS': 23, 'NONFUNCTIONAL': 24, 'REJECTED': 25,
       'EXPERTLIMIT': 26, 'BADNEIGHBOR': 27, 'MISSINGSPOT': 28, 'BADPERFORMANCE': 29}


def bits(v):
    v = int(v)
    return [-1] if v < 0 else [i for i in range(v.bit_length()) if v >> i & 1]


def value(bs):
    return sum(1 << b for b in set(bs))


def ask(m, d, op, ns=(), bs=(), f=None, **kw):
    e = {'d': d, 'op': op, 'ns': list(ns), 'bs': list(bs), 'err': '', 'ob': [], 'on': [], 'ot': '', 'od': []}
    try:
        r = f(m)
        if kw.get('kind') == 'bits':
            e['ob'] = bits(r)
        elif kw.get('kind') == 'num':
            e['ob'] = [int(r)]
        elif kw.get('kind') == 'names':
            e['on'] = [str(x) for x in r]
        elif kw.get('kind') == 'name':
            e['on'] = [str(r)]
        elif kw.get('kind') == 'text':
            e['ot'] = str(r)
        elif kw.get('kind') == 'both':
            e['ob'], e['on'] = bits(r[0]), [str(x) for x in r[1]]
        else:
            e['od'] = r
    except Exception as exc:
        e['err'] = type(exc).__name__
    return e


def from_text(m, name):
    import yaml
    t = yaml.safe_load(repr(m))
    return [{'n': str(x[0]), 'b': int(x[1]), 'c': str(x[2])} for x in (t[name] or [])]


def questions(rs, m, name, d, ns, v, out):
    """everything that can be asked with the names ns and the value v"""
    A = lambda op, n, b, f, kind: out.append(ask(m, d, op, n, b, f, kind=kind))
    A('mask', ns, [], lambda m: m.mask('|'.join(ns)), 'bits')
    A('back', ns, [], lambda m: (m.mask('|'.join(m.names(m.mask('|'.join(ns))))), m.names(m.mask('|'.join(ns)))), 'both')
    import functools
    A('or', ns, [], lambda m: functools.reduce(operator.or_, [m[n] for n in ns]), 'bits')
    A('or', ns, [], lambda m: functools.reduce(operator.or_, [getattr(m, n) for n in ns]), 'bits')
    n = ns[0]
    A('item', [n], [], lambda m: m[n], 'bits')
    A('attr', [n], [], lambda m: getattr(m, n), 'bits')
    A('attr', [n], [], lambda m: getattr(m, n).mask, 'bits')
    A('bitnum', [n], [], lambda m: m.bitnum(n), 'num')
    A('bitnum', [n], [], lambda m: m[n].bitnum, 'num')
    A('comment', [n], [], lambda m: m.comment(n), 'text')
    A('allnames', [], [], lambda m: m.names(), 'names')
    w = value(v)
    kinds = [int] + [k for k in (np.int32, np.int64, np.uint32, np.uint64, float) if k is not float and w <= np.iinfo(k).max]
    k = kinds[rs.randrange(len(kinds))]
    A('names', [], v, lambda m: m.names(k(w)), 'names')
    for b in v[:1] or [3]:
        A('bit', [], [b], lambda m: m.mask(b), 'bits')
        A('item-bit', [], [b], lambda m: m[b], 'bits')
        A('bitname', [], [b], lambda m: m.bitname(b), 'name')
        A('comment-bit', [], [b], lambda m: m.comment(b), 'text')
    A('repr', [], [], lambda m: from_text(m, name), 'def')


def extras(rng, BitMask, ev, n):
    """definitions with additional attributes, possible and impossible ones"""
    import yaml
    free, taken = ['sky', 'ra', 'Flag2', 'weight_', 'comments', 'masked'], ['name', 'bitnum', 'mask', 'comment', 'real', 'imag', 'numerator', 'bit_length', '_extra']
    for _ in range(n):
        k = rng.randrange(1, 5)
        names, places = rng.sample(['ALPHA', 'BETA', 'GAMMA', 'DELTA', 'EPS'], k), rng.sample(range(0, 64), k)
        ex = [{x: rng.randrange(0, 1000) for x in rng.sample(free, rng.randrange(0, 4))} for _ in range(k)]
        bad = rng.random() < .5
        at = rng.randrange(k)
        give = list(ex)
        if bad:
            give[at] = rng.choice([dict(ex[at], **{rng.choice(taken): 7}), [1], 'text', 3]) if rng.random() < .9 else [('sky', 1)]
        d = [{'n': a, 'b': b, 'c': 'about ' + a} for a, b in zip(names, places)]
        form = [[x['n'], x['b'], x['c']] + ([g] if g else []) for x, g in zip(d, give)]
        key = sorted((ex[at] or {}).items())
        e = {'d': d, 'op': 'refuse' if bad else 'extra', 'ns': [names[at]], 'bs': [], 'err': '', 'ob': [], 'on': [], 'ot': '', 'od': [], 'want': [[a, v] for a, v in key], 'got': [], 'text': []}
        try:
            m = BitMask('m', {'m': form})
            if not bad:
                b = m[names[at]]
                e['got'] = [[a, int(getattr(b, a, -1))] for a, _ in key]
                t = [x for x in yaml.safe_load(repr(m))['m'] if x[0] == names[at]][0]
                e['text'] = [[a, v] for a, v in sorted((t[3] if len(t) > 3 else {}).items())]
                e['ob'] = [m[names[at]].bitnum]
        except Exception as exc:
            e['err'] = type(exc).__name__
        ev.append(e)


def run(ck):
    from desimeter.bitmask import BitMask
    from desimeter.posparams.movemask import movemask
    from desimeter.posparams.posflags_mask import posflags_mask
    rng = ck.rng
    th = ck.thorough
    res = ck.model('BitMaskModel', workers=8, constants={'MaxBits': 3 if th else 2, 'Top': 3})
    cases = res.cases()
    ck.refuted('BitMaskModel', constants={'MaxBits': 2, 'Top': 3, 'Naive': 'TRUE'})
    rng.shuffle(cases)
    cases = cases[:20000 if th else 2500]
    ev = []
    # the small definitions of the model, with their bits moved anywhere
    for n, c in enumerate(cases):
        up = rng.choice([[0, 1, 2, 3], [0, 1, 2, 3], [5, 6, 7, 8], [30, 31, 32, 33], [0, 31, 62, 63], [61, 62, 63, 64]])
        d = [dict(x, b=up[x['b']]) for x in c['d']]
        v = sorted(up[b] for b in c['val'])
        name = 'm%d' % n
        form = [[x['n'], x['b'], x['c']] + ([{'sky': 1}] if n % 3 == 0 else []) for x in d]
        m = BitMask(name, {'other': [['ALPHA', 9, 'no']], name: form} if n % 2 else {name: form})
        if n % 2:   # another mask with the same names alongside
            BitMask('other', {'other': [[x, 20 + i, 'another'] for i, x in enumerate(('GAMMA', 'BETA', 'ALPHA'))]})
        questions(rng, m, name, d, c['ask'], v, ev)
    extras(rng, BitMask, ev, 4000 if th else 600)
    # masks of the package
    for name, m, want in (('movemask', movemask, list(zip(MOVE, range(5)))), ('posflags_mask', posflags_mask, list(POS.items()))):
        d = [{'n': k, 'b': b, 'c': str(m.comment(k))} for k, b in want]
        ev.append(dict(ask(m, d, 'shipped', f=lambda m: from_text(m, name)), op='shipped'))
        for _ in range(1500 if th else 250):
            ns = [rng.choice(want)[0] for _ in range(rng.randrange(1, 7))]
            if rng.random() < .1:
                ns[rng.randrange(len(ns))] = rng.choice(['NOSUCH', 'theta_stuck', 'MATCHE', 'UNKNOWN13'])
            v = sorted(set(rng.randrange(0, rng.choice([5, 13, 31, 66])) for _ in range(rng.randrange(0, 9))))
            questions(rng, m, name, d, ns, v, ev)
    ck.cov['questions'] = len(ev)
    ck.sample(ev[0])
    ck.judge('BitMaskTrace', ev, lambda e, c: (c, e), chunk=8000)
    ck.assumptions = ['bits are asked for by Python integers; values may be of any integer type', 'names and comments without quotes']
