"""C17: fibre list expressions (spec/FiberList.tla, FiberModel.tla, FiberTrace.tla)."""
import contextlib, io, re
import numpy as np


def call(f, s):
    e = {'s': list(s), 'v': [], 'whole': True}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = f(s)
        r = np.asarray(r)
        e['out'] = 'list' if r.ndim == 1 else 'shape'
        e['whole'] = bool(all(float(x) == int(x) for x in r)) and (r.size == 0 or r.dtype.kind in 'iu')
        e['v'] = [int(x) for x in r[:60000]]
    except SystemExit as exc:
        e['out'] = 'error' if exc.code not in (0, None) else 'exit without error'
    except Exception:
        e['out'] = 'error'
    return e


def run(ck):
    from desimeter.util import parse_fibers
    rng = ck.rng
    th = ck.thorough
    cases = ck.model('FiberModel', workers=8, constants={'MaxLen': 6 if th else 5}).cases()
    ck.cov['expressions of the model'] = len(cases)
    rng.shuffle(cases)
    ev = [call(parse_fibers, ''.join(c)) for c in cases]
    sp = lambda: ' ' * rng.choice([0, 0, 0, 1, 2])
    for _ in range(30000 if th else 4000):
        items = []
        for _ in range(rng.choice([1, 2, 3, 5, 9])):
            a = rng.choice([rng.randrange(12), rng.randrange(600), rng.randrange(5200)])
            z = rng.choice(['', '', '', '0', '00'])
            k = rng.randrange(4)
            b = max(0, a + rng.choice([-3, 0, 1, 2, 5, 40]))
            items.append(sp() + z + str(a) + sp() + ('' if k == 0 else [':', '..', '-'][k - 1] + sp() + rng.choice(['', '', '0']) + str(b) + sp()))
        s = ','.join(items)
        if rng.random() < .35:   # spoil it
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(s) + 1)
                s = rng.choice([s[:i] + rng.choice(',:.-x;+_eE/') + s[i:], s[:i] + s[i + 1:], s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]])
        if max([int(x) for x in re.findall(r'\d+', s.replace(' ', ''))] or [0]) < 20000:
            ev.append(call(parse_fibers, s))
    e = call(lambda s: parse_fibers(None), '')
    ev += [e] + [dict(call(lambda s: parse_fibers(int(s)), str(n))) for n in (0, 7, 4999)]
    ck.cov['outcomes'] = {k: sum(1 for e in ev if e['out'] == k) for k in ('list', 'error')}
    ck.sample(''.join(ev[-40]['s']))
    ck.judge('FiberTrace', ev, lambda e, c: (c, {'expression': ''.join(e['s']), 'out': e['out'], 'v': e['v']}), chunk=8000)
    ck.assumptions = ['characters other than digits and separators stand for all others; tabs and other scripts\' digits are not tried']
