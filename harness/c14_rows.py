"""C14: rows and windows of calibration fits (spec/CalibModel.tla, CalibTrace.tla)."""
import contextlib, inspect, io, os, time
import numpy as np
from multiprocessing import Pool
from calibsim import date, measure, PAR
from common import q

WORDS = {'a': 'arc calibration', 'b': 'use_desimeter=True', 'c': 'req_posintTP'}
UNIT = 6.   # hours per unit of date


def angles(i):
    return (i * 47 % 340) - 170 + .25, 60. + (i * 31 % 113)


def note(rs, ws):
    ws = [WORDS[w] for w in ws]
    rs.shuffle(ws)
    pre = ['', 'exposure 12', 'use_desimete', 'arc_calibration', 'req posintTP']
    parts = [pre[rs.integers(len(pre))]] + ws
    if rs.random() < .6:
        parts = [v for v in parts if v and v in ws]
    return ['; ', ' ', ';'][rs.integers(3)].join(parts)


def expr(rs, sel):
    sp = lambda: ['', ' ', '  '][rs.integers(3)]
    return '|'.join(sp() + (sp() + '&' + sp()).join(WORDS[k] for k in a) + sp() for a in sel)


def case(job):
    n, rows, sel, period, dw, minw, seed, work = job
    os.environ['TZ'] = 'UTC'
    time.tzset()
    from astropy.table import Table
    import desimeter.posparams.fithandler as fh
    import desimeter.posparams.fitter as fitter
    rs = np.random.default_rng([seed, n])
    order = rs.permutation(len(rows)) if rs.random() < .7 else np.arange(len(rows))
    rows = [rows[i] for i in order]
    k = len(rows)
    posid = 'M%05d' % (n % 100000)
    T, P = [angles(i)[0] for i in range(k)], [angles(i)[1] for i in range(k)]
    petal = int(rs.integers(10))
    X, Y = measure(T, P, PAR, petal)
    style = int(rs.integers(3))
    yes, no = [('True', 'False'), (1, 0), ('yes', 'no'), ('TRUE', 'FALSE')][rs.integers(4)]
    force = bool(rs.integers(2))
    t = Table({'DATE': [date(r['d'] * UNIT, style) for r in rows], 'POS_ID': [posid] * k, 'PETAL_LOC': [petal] * k, 'PETAL_ID': [3] * k, 'DEVICE_LOC': [100] * k,
               'POS_T': T, 'POS_P': P, 'X_FP': X, 'Y_FP': Y, 'CTRL_ENABLED': [yes if r['en'] else no for r in rows],
               'TOTAL_MOVE_SEQUENCES': [r['tms'] for r in rows], 'EXPOSURE_ID': [100 + i for i in order],
               'RECENT_REHOME': [0 if force and i % 3 else 1 for i in range(k)], 'LOG_NOTE': [note(rs, list(r['note'])) for r in rows]})
    if rs.integers(2):
        t['GEAR_CALIB_T'], t['GEAR_CALIB_P'] = np.ones(k), np.ones(k)
    d = os.path.join(work, 'c%d' % n)
    os.makedirs(d)
    path = os.path.join(d, posid + '.csv')
    t.write(path)
    e = {'rows': [{'d': r['d'], 'en': r['en'], 'tms': r['tms'], 'note': list(r['note'])} for r in rows], 'sel': [list(a) for a in sel], 'period': period * 4, 'dw': dw, 'minw': minw}
    fed = []
    real = fitter.fit_params

    def recorder(*a, **kw):
        with contextlib.suppress(Exception):
            b = inspect.signature(real).bind(*a, **kw).arguments
            if b.get('mode', 'static') == 'static':
                fed.append([int(np.argmin(np.abs(np.array(T) - v))) + 1 for v in b['posintT']])
        return real(*a, **kw)
    fitter.fit_params = recorder
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fh.run_best_fits(posid, path, period, dw, d, .05, min_window=minw, log_note_selection=expr(rs, sel) if sel else None, force_recent_rehome=force)
        o = Table.read(os.path.join(d, posid + '_paramfits.csv'))
        if 'NUM_POINTS' not in o.colnames:
            e.update(out='flag', flag=int(o['FLAGS'][0]) if len(o) == 1 else -1)
        else:
            num = {dd: r['d'] for dd, r in zip(t['DATE'], rows)}
            o = o[np.argsort([(num.get(b, 9999)) * 10000 + num.get(a, 9999) for a, b in zip(o['DATA_START_DATE'], o['DATA_END_DATE'])])]
            byend = {}
            for f in fed:
                if f:
                    byend[(rows[f[0] - 1]['d'], rows[f[-1] - 1]['d'])] = f
            wins = []
            for r in o:
                a, b = num.get(r['DATA_START_DATE'], -1), num.get(r['DATA_END_DATE'], -1)
                sec = [abs(r['DATA_%s_DATE_SEC' % w] - 1583020800. - v * UNIT * 3600) < 1 for w, v in (('START', a), ('END', b))]
                wins.append({'a': a if sec[0] else -2, 'b': b if sec[1] else -2, 'n': int(r['NUM_POINTS']), 'ns': int(r['NUM_POINTS_IN_FIT_STATIC']),
                             'nd': int(r['NUM_POINTS_IN_FIT_DYNAMIC']), 'fed': byend.get((a, b), [])})
            e.update(out='fit', wins=wins)
    except (Exception, SystemExit) as exc:
        e['exc'] = repr(exc)[:160]
    finally:
        fitter.fit_params = real
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    return e


def run(ck):
    rng = ck.rng
    th = ck.thorough
    hist = ck.model('CalibModel', workers=8, constants={'MaxRows': 5 if th else 4}).cases()
    wins = ck.model('CalibModel', cfg='CalibWindows', workers=8, constants={'MaxRows': 11 if th else 8}).cases()
    ck.cov['histories'] = len(hist) + len(wins)
    rng.shuffle(hist)
    rng.shuffle(wins)
    sels = [[], [['a']], [['a', 'b']], [['b'], ['c']], [['a', 'c'], ['b']], [['b', 'a']], [['c']]]
    jobs = []

    def add(rows, **kw):
        o = dict(sel=[], period=1, dw=3, minw=2)
        o.update(kw)
        jobs.append((len(jobs), rows, o['sel'], o['period'], o['dw'], o['minw'], ck.seed, ck.work))
    for h in hist[:4000 if th else 500]:
        add(h, sel=rng.choice([[], [], [], []] + sels[1:4]), period=rng.choice([1, 2, 1000]), dw=rng.choice([2, 3, 5]), minw=rng.choice([2, 2, 3]))
    for h in wins[:4000 if th else 350]:
        add(h, period=rng.choice([1, 2, 3, 1000000]), dw=rng.choice([2, 2, 3, 4, 5, 20, 1000000]), minw=rng.choice([2, 10]))
    for _ in range(1500 if th else 120):
        rows, d, tms, en = [], 0, 7, True
        still = rng.choice([0., .3, .9])
        for _ in range(rng.randrange(1, 45)):
            d += rng.choice([1, 1, 1, 2, 9])
            tms += 0 if rng.random() < still else rng.choice([1, 3])
            en = en if rng.random() < .85 else not en
            rows.append({'d': d, 'en': en, 'tms': tms, 'note': [w for w in 'abc' if rng.random() < .7]})
        add(rows, sel=rng.choice(sels), period=rng.choice([1, 2, 5, 1000]), dw=rng.choice([2, 4, 10, 30, 1000]), minw=rng.choice([2, 10]))
    with Pool(7) as pool:
        ev = pool.map(case, jobs, chunksize=8)
    ck.cov['outcomes'] = {k: sum(1 for e in ev if e.get('out', 'raised') == k) for k in ('fit', 'flag', 'raised')}
    ck.cov['rows given to the fit observed'] = sum(1 for e in ev if any(w['fed'] for w in e.get('wins', [])))
    ck.sample(next(e for e in ev if e.get('out') == 'fit'))
    ck.judge('CalibTrace', ev, lambda e, c: (c, e), chunk=300)
    ck.assumptions = ['dates of the rows of one positioner differ; dates are multiples of six hours and periods whole days, so that datum dates are exact',
                      'of rows without a move in between, a row before which control was disabled counts as the first one']
