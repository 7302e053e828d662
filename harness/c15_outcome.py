"""C15: outcome of the calibration of one positioner (spec/CalibOutcome.tla,
CalibHistory.tla, CalibFitTrace.tla)."""
import contextlib, copy, glob, io, os
import numpy as np
from multiprocessing import Pool
from calibsim import date, measure
from common import q, run_bin

STATIC = ['LENGTH_R1', 'LENGTH_R2', 'OFFSET_T', 'OFFSET_P', 'OFFSET_X', 'OFFSET_Y']
SC = dict(LENGTH_R1=1e5, LENGTH_R2=1e5, OFFSET_X=1e5, OFFSET_Y=1e5, OFFSET_T=1e4, OFFSET_P=1e4, SCALE_T=1e5, SCALE_P=1e5)
TOL = dict(LENGTH_R1=500, LENGTH_R2=500, OFFSET_X=500, OFFSET_Y=500, OFFSET_T=1000, OFFSET_P=1000, SCALE_T=20, SCALE_P=20)


def base(name):
    for k in SC:
        if name.startswith(k):
            return k
    return 'OFFSET_T'   # drifts are angles


def num(name, v):
    return q(v, SC[base(name)])


def tol(name, e):
    # the optimiser stops early with many parameters
    return TOL[base(name)] * (10 if e['ns'] > 2 else 2 if e['ns'] else 1)


def data(kind, seed):
    """moves and measurements of one simulated positioner"""
    rs = np.random.default_rng([seed, 77])
    drifting = kind in ('drift', 'many', 'late', 'outdrift')
    lim = 120 if drifting else 179.9
    par = dict(LENGTH_R1=rs.uniform(2.7, 3.3), LENGTH_R2=rs.uniform(2.7, 3.3), OFFSET_T=rs.uniform(-lim, lim), OFFSET_P=rs.uniform(-20, 20),
               OFFSET_X=rs.uniform(60, 370), OFFSET_Y=rs.uniform(-45, 45))
    nt, npp = int(rs.integers(10, 16)), int(rs.integers(8, 16))
    ns = {'drift': 2, 'many': 12, 'late': 1, 'outdrift': 1}.get(kind, 0)
    P0 = float(rs.choice([110., 130., 150.]))
    T = list(np.linspace(-170, 170, nt)) + [float(rs.uniform(-90, 90))] * npp
    P = [P0] * nt + list(np.linspace(60, 170, npp))
    if kind == 'gear':
        # small steps: the fit of the scales starts at one
        T[nt:], P[nt:] = [T[nt - 1]] * npp, list(np.linspace(P0 - 3, 60, npp))
    if kind == 'fold':
        # also moves of theta with the arm folded, which hardly move the fiber
        par['OFFSET_P'] = rs.uniform(10, 16)
        T += list(np.linspace(0, 35, 5))
        P += [158.] * 5
        npp += 5
    seq = [0] * (nt + npp)
    for s in range(1, ns + 1):
        m = int(rs.integers(3, 6))
        T += list(rs.uniform(-170, 170, m))
        P += list(rs.uniform(60, 165, m))
        seq += [s] * m
    n = len(T)
    e = {'T': np.array(T), 'P': np.array(P), 'seq': seq, 'rehome': [int(s == 0) for s in seq], 'petal': int(rs.integers(10)), 'par': par,
         'eT': [0.] + [float(rs.uniform(-30, 30)) for _ in range(ns)], 'eP': [0.] + [float(rs.uniform(-8, 8)) for _ in range(ns)],
         'gT': [1.] * n, 'gP': [1.] * n, 'minw': 10, 'outliers': 0, 'dw': 1000000, 'ok': True, 'bad': '', 'exact': True, 'ns': ns, 'n1': nt + npp}
    if kind == 'gear':
        # as recorded with gear calibrations in place
        e['gT'], e['gP'] = [float(rs.uniform(.6, .95))] * n, [float(rs.uniform(.6, .95))] * n
    if kind == 'nohome':
        e['rehome'] = [0] * n
    if kind == 'late':
        e['dw'] = e['n1']
    if kind == 'few':
        k = int(rs.integers(2, 9))
        for c in ('T', 'P'):
            e[c] = e[c][:k]
        for c in ('seq', 'rehome', 'gT', 'gP'):
            e[c] = e[c][:k]
    if kind == 'fewhome':
        # fewer than ten after a rehome
        k = int(rs.integers(1, 10))
        e['seq'] = [0] * k + [1] * (n - k)
        e['rehome'] = [1] * k + [0] * (n - k)
        e['ns'], e['eT'], e['eP'] = 1, [0., 12.], [0., 3.]
    if kind in ('empty', 'otherid', 'nocolumn', 'noboth'):
        e['ok'] = False
        e['bad'] = kind
    if kind == 'untest':
        e['P'][:nt] = 168.
        e['P'][nt:] = 161 + rs.permutation(npp) * .5
    # the elbow does not fold over
    if kind == 'fold':
        e['P'] = np.minimum(e['P'], 158.)
    else:
        e['P'] = e['P'] if kind == 'untest' else 60. + (e['P'] - 60.) * min(1., (114. - par['OFFSET_P'] - np.max(e['eP'])) / 110.)
    if kind == 'stuckearly':
        e['P'][nt:nt + 4] = e['P'][0]
    n = len(e['T'])
    x, y = measure(e['T'], e['P'], par, e['petal'], np.array(e['eT'])[e['seq']], np.array(e['eP'])[e['seq']])
    if kind in ('stuck', 'creep', 'untest'):
        a = {'stuck': rs.uniform(.0, .08), 'creep': rs.uniform(.13, .3), 'untest': .02}[kind]
        th = np.linspace(0, 2 * np.pi, n, endpoint=False)
        th = np.concatenate([np.arange(nt) * 2 * np.pi / nt, np.arange(n - nt) * 2 * np.pi / max(1, n - nt)])
        x, y = x[0] + a * np.cos(th), y[0] + a * np.sin(th)
        e['exact'] = False
    if kind == 'stuckearly':
        # the first window sees only a stuck positioner
        e['dw'] = nt
        e['exact'] = False
        th = np.arange(nt) * 2 * np.pi / nt
        x[:nt], y[:nt] = x[0] + .03 * np.cos(th), y[0] + .03 * np.sin(th)
    if kind in ('outlier', 'outdrift'):
        e['outliers'] = int(rs.integers(1, 3))
        for i in rs.choice(n if kind == 'outlier' else nt + npp, e['outliers'], replace=False):
            w = rs.uniform(0, 6.28)
            x[i] += 4 * np.cos(w)
            y[i] += 4 * np.sin(w)
    if kind == 'junk':
        e['outliers'] = 1
        e['exact'] = False
        k = int(rs.integers(8, 11))
        e['T'], e['P'] = e['T'][nt - 4:nt - 4 + k], e['P'][nt - 4:nt - 4 + k]
        for c in ('seq', 'rehome', 'gT', 'gP'):
            e[c] = e[c][:k]
        x, y = x[:k] + rs.normal(0, 8, k), y[:k] + rs.normal(0, 8, k)
    e['x'], e['y'] = x, y
    from desimeter.transform.ptl2fp import fp2ptl
    px, py, _ = fp2ptl(e['petal'], np.array(x), np.array(y))
    e['px'], e['py'] = [float(v) for v in px], [float(v) for v in py]
    return e


def cond(e, level, few=False):
    n = len(e['T'])
    last = sorted({min(n, k * e['dw']) for k in range(1, -(-n // e['dw']) + 1)}) if level == 'table' else [n]
    wins = []
    for m in last:
        groups = []
        for p in np.unique(e['P'][:m]):
            w = np.array(e['P'][:m]) == p
            px, py = np.array(e['px'])[:m][w], np.array(e['py'])[:m][w]
            sc = np.sqrt(np.mean((px - px.mean())**2 + (py - py.mean())**2))
            groups.append([q(p, 1e3), int(w.sum()), q(np.ptp(e['T'][:m][w]), 1e3), q(sc, 1e3)])
        wins.append(groups)
    return {'level': level, 'ok': e['ok'] or e['bad'] == 'empty', 'n': 0 if e['bad'] == 'empty' else n, 'minw': e['minw'], 'nre': 0 if e['bad'] == 'empty' else sum(e['rehome']), 'wins': wins, 'few': few}


def truth(e, keys):
    t = dict(e['par'])
    for s in range(1, e['ns'] + 1):
        t['EPSILON_T_%d' % s], t['EPSILON_P_%d' % s] = e['eT'][s], e['eP'][s]
    return {k: t[k] for k in keys if k in t}


def tables():
    import desimeter.posparams.fitter as f
    import desimeter.posparams.fithandler as fh
    return copy.deepcopy([f.default_values, f.default_bounds, list(f.static_keys), list(f.dynamic_keys), sorted(f.all_keys), fh.output_keys, list(fh.passthru_keys)])


def fit_case(kind, seed):
    import desimeter.posparams.fitter as f
    e = data(kind, seed)
    rs = np.random.default_rng([seed, 78])
    n = len(e['T'])
    mode = 'dynamic' if kind == 'gear' else 'static'
    kw = dict(mode=mode)
    T, P, want, fixed = e['T'].tolist(), e['P'].tolist(), {}, {}
    style = int(rs.integers(3))
    if style:
        kw['nominals'], kw['bounds'] = copy.deepcopy(f.default_values), copy.deepcopy(f.default_bounds)
    if mode == 'dynamic':
        sT, sP = e['gT'][0], e['gP'][0]
        kw['nominals'] = dict(f.default_values, **e['par'])
        # commanded angles: the true moves are the scaled ones
        # with the gear calibration in place at the time of each move
        e['gT'], e['gP'] = [[float(v) for v in rs.choice([1., .9, .8], n)] for _ in 'TP']
        cT, cP = [float(T[0])], [float(P[0])]
        for i in range(1, n):
            cT.append(cT[-1] + (T[i] - T[i - 1]) / sT * e['gT'][i])
            cP.append(cP[-1] + (P[i] - P[i - 1]) / sP * e['gP'][i])
        T, P = cT, cP
        want = {'SCALE_T': sT, 'SCALE_P': sP}
        fixed = {k: e['par'][k] for k in STATIC if k != 'OFFSET_T'}
        e['T'], e['P'] = np.array(T), np.array(P)
    else:
        want = truth(e, list(STATIC) + ['EPSILON_%s_%d' % (a, s) for a in 'TP' for s in range(1, e['ns'] + 1)]) if e['exact'] else {}
        fixed = {'SCALE_T': 1., 'SCALE_P': 1.}
        if style == 2 and kind in ('plain', 'outlier', 'fold'):
            k = sorted(rs.choice(['LENGTH_R1', 'LENGTH_R2', 'OFFSET_P'], int(rs.integers(1, 4)), replace=False))
            kw['keep_fixed'] = list(k)
            for key in k:
                kw['nominals'][key] = e['par'][key]
                fixed[key] = e['par'][key]
    if e['outliers']:
        kw['outlier_rejection'] = True
    args = [T, P, list(e['px']), list(e['py']), list(e['gT']), list(e['gP']), list(e['rehome']), list(e['seq'])]
    before = copy.deepcopy((args, kw))
    t0 = tables()
    r = {'op': 'fit'}
    with contextlib.redirect_stdout(io.StringIO()):
        b, cov, rms, npts = f.fit_params(*args, **kw)
    r['pure'] = (args, kw) == before
    r['tables'] = tables() == t0
    fl = int(b['FLAGS'])
    par = {k: v for k, v in b.items() if k != 'FLAGS'}
    few = bool(e['outliers'] and kind == 'junk' and npts < 6)
    r.update(c=cond(e, 'fit', few), flags=fl, out='flags' if fl else 'params', extra=sorted(par) if fl else [], par={} if fl else {k: num(k, v) for k, v in par.items()},
             truth={k: num(k, v) for k, v in want.items()}, tol={k: tol(k, e) for k in want}, fixed={k: num(k, v) for k, v in fixed.items()},
             npts=int(npts) if not fl else -1, rms=q(rms, 1e6) if e['exact'] else 0)
    r['nexp'] = -1 if not e['exact'] or fl else n - e['outliers'] - (mode == 'dynamic')
    r['theta'] = ['OFFSET_T']
    return r


def write(e, path, posid, rs):
    from astropy.table import Table
    n = len(e['T'])
    o = list(range(n)) if e['dw'] < 1e5 else list(rs.permutation(n))
    t = Table({'DATE': [date(.5 * i, 0) for i in range(n)], 'POS_ID': [posid if e['bad'] != 'otherid' else 'M99999'] * n, 'PETAL_LOC': [e['petal']] * n, 'PETAL_ID': [4] * n, 'DEVICE_LOC': [101] * n,
               'POS_T': e['T'], 'POS_P': e['P'], 'X_FP': e['x'], 'Y_FP': e['y'], 'CTRL_ENABLED': ['True'] * n, 'TOTAL_MOVE_SEQUENCES': list(range(3, n + 3)),
               'EXPOSURE_ID': [500 + s for s in e['seq']], 'RECENT_REHOME': e['rehome'], 'LOG_NOTE': ['arc'] * n})
    if len(set(e['gT'])) and (e['gT'][0] != 1 or rs.integers(2)):
        t['GEAR_CALIB_T'], t['GEAR_CALIB_P'] = e['gT'], e['gP']
    t = t[o]
    if e['bad'] in ('nocolumn', 'noboth'):
        t.remove_columns(['X_FP'] if e['bad'] == 'nocolumn' else ['X_FP', 'PETAL_LOC'])
    if e['bad'] == 'empty':
        t['LOG_NOTE'] = np.repeat('something else', n)
    t.write(path)


def table_expect(e):
    """values wanted by window"""
    n, n1 = len(e['T']), e['n1']
    if not e['exact']:
        return 1, {}
    wins = [n] if e['dw'] > n else sorted({min(n, k * e['dw']) for k in range(1, -(-n // e['dw']) + 1)})
    want = {}
    for w, m in enumerate(wins):
        for k, v in truth(e, STATIC).items():
            want['%s_STATIC@%d' % (k, w)] = v
        for s in range(1, e['ns'] + 1):
            here = s in e['seq'][:m]
            for a, ev in (('T', e['eT']), ('P', e['eP'])):
                want['EPSILON_%s_%d_STATIC@%d' % (a, s, w)] = ev[s] if here else 0.
        if not e['outliers']:   # an outlier spoils two of the moves
            want['SCALE_T_DYNAMIC@%d' % w], want['SCALE_P_DYNAMIC@%d' % w] = e['gT'][0], e['gP'][0]
    return len(wins), want


def read_result(path, e, r):
    from astropy.table import Table
    o = Table.read(path)
    nw, want = table_expect(e)
    if 'NUM_POINTS' not in o.colnames:
        r.update(out='flags', flags=int(o['FLAGS'][0]) if len(o) == 1 else -1, extra=sorted(set(o.colnames) - {'ANALYSIS_DATE', 'POS_ID', 'FLAGS'}), par={}, npts=-1, rms=0)
    else:
        par = {}
        for w, row in enumerate(o):
            for k in o.colnames:
                if (k.endswith('_STATIC') or k.endswith('_DYNAMIC')) and k.split('_STATIC')[0].split('_DYNAMIC')[0] in list(SC) + [x for x in o.colnames and [k.rsplit('_', 1)[0]] if x.startswith('EPSILON')]:
                    par['%s@%d' % (k, w)] = num(k, row[k])
        r.update(out='params', flags=int(np.bitwise_or.reduce(np.array(o['FLAGS'], int))), extra=[], par=par, npts=int(o['NUM_POINTS_IN_FIT_STATIC'][-1]),
                 rms=q(max(list(o['FIT_ERROR_STATIC']) + ([] if e['outliers'] else list(o['FIT_ERROR_DYNAMIC']))), 1e6) if e['exact'] else 0)
    r['truth'] = {k: num(k, v) for k, v in want.items()}
    r['tol'] = {k: tol(k, e) for k in want}
    r['theta'] = [k for k in want if k.startswith('OFFSET_T')]
    r['nexp'] = -1 if not e['exact'] or r['out'] == 'flags' else len(e['T']) - e['outliers']
    return r


def table_case(kind, seed, work):
    import desimeter.posparams.fithandler as fh
    e = data(kind, seed)
    if kind == 'gear':
        e['gT'], e['gP'] = [.5] * len(e['T']), [.8] * len(e['T'])
    rs = np.random.default_rng([seed, 79])
    posid = 'M%05d' % (seed % 100000)
    d = os.path.join(work, '%s_%d_%d' % (kind, seed, os.getpid()))
    os.makedirs(d)
    p = os.path.join(d, posid + '.csv')
    write(e, p, posid, rs)
    raw = open(p).read()
    t0 = tables()
    r = {'op': 'table', 'flags': 0, 'extra': [], 'par': {}, 'truth': {}, 'tol': {}, 'fixed': {}, 'npts': -1, 'nexp': -1, 'rms': 0, 'theta': []}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fh.run_best_fits(posid, p, 1000000, e['dw'], d, .05, min_window=e['minw'], outlier_rejection=bool(e['outliers']),
                             log_note_selection='arc' if e['bad'] == 'empty' or rs.integers(2) else None)
    except RuntimeError:
        r['out'] = 'refused'
    res = os.path.join(d, posid + '_paramfits.csv')
    if r.get('out') == 'refused':
        if os.path.exists(res):
            r['out'] = 'refused-with-file'
    else:
        read_result(res, e, r)
    r['pure'] = open(p).read() == raw
    r['tables'] = tables() == t0
    r['c'] = cond(e, 'table', kind == 'junk' and r['out'] == 'flags' and r['flags'] == 4)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    return r


def one(item, work):
    level, kind, seed = item
    r = {'op': level, 'id': '%s-%s-%d' % item}
    try:
        r.update(fit_case(kind, seed) if level == 'fit' else table_case(kind, seed, work))
    except (Exception, SystemExit) as exc:
        r['exc'] = repr(exc)[:160]
    return r


def history(job):
    items, work = job
    return [one(i, work) for i in items]


def script(job):
    """bin/fit_posparams on a directory of positioners"""
    n, items, nproc, work = job
    d = os.path.join(work, 's%d' % n)
    os.makedirs(d)
    ds = []
    for i, (level, kind, seed) in enumerate(items):
        e = data(kind, seed)
        e['dw'] = 1000000
        if kind == 'gear':
            e['gT'], e['gP'] = [.5] * len(e['T']), [.8] * len(e['T'])
        posid = 'M%05d' % (seed % 100000)
        write(e, os.path.join(d, posid + '.csv'), posid, np.random.default_rng([seed, 80]))
        ds.append((posid, e))
    a = ['-i', os.path.join(d, 'M*.csv'), '-o', os.path.join(d, 'out'), '-np', nproc, '--log-note-selection', 'something & missing | arc']
    rc, out = run_bin('fit_posparams', a, d, timeout=600)
    evs = []
    for (posid, e), item in zip(ds, items):
        r = {'op': 'table', 'id': 'script-%s-%s-%d' % item, 'flags': 0, 'extra': [], 'par': {}, 'truth': {}, 'tol': {}, 'fixed': {}, 'npts': -1, 'nexp': -1, 'rms': 0, 'theta': [], 'pure': True, 'tables': True}
        res = os.path.join(d, 'out', posid + '_paramfits.csv')
        if rc:
            r['exc'] = out[-160:]
        elif not os.path.exists(res):
            r['out'] = 'refused'
        else:
            read_result(res, e, r)
        r['c'] = cond(e, 'table')
        evs.append(r)
    return evs


def run(ck):
    rng = ck.rng
    th = ck.thorough
    m = ck.model('CalibHistory', workers=4, constants={'Length': 3})
    hists = m.cases()
    ck.refuted('CalibHistory', constants={'Shared': 'TRUE'})
    ck.cov['histories of the model'] = len(hists)
    ck.cov['conditions of the model'] = len(m.cases('COND'))
    rng.shuffle(hists)
    # of the data sets examined in advance, those on which the optimiser converges
    pool_ = [i for i in range(300) if i not in (45, 67, 103, 258, 261)]
    seeds = rng.sample(pool_, 40 if th else 5)
    fit_only = ['fold', 'outdrift', 'junk', 'creep', 'untest']
    table_only = ['fold', 'outdrift', 'stuckearly', 'few', 'fewhome', 'empty', 'otherid', 'nocolumn', 'noboth', 'creep', 'junk', 'untest']

    def item(kind, level=None):
        level = level or rng.choice(['fit', 'table'])
        return (level, kind, rng.choice(seeds))
    jobs = [[item(k) for k in h] for h in hists[:512 if th else 70]]
    for _ in range(300 if th else 25):
        ks = ['plain', 'drift', 'many', 'late', 'gear', 'stuck', 'outlier', 'nohome']
        jobs.append([item(rng.choice(fit_only + ks), 'fit') if rng.random() < .4 else item(rng.choice(table_only + ks), 'table') for _ in range(rng.choice([2, 3, 4, 6]))])
    for k in fit_only:
        jobs.append([item(k, 'fit')])
    for k in table_only:
        jobs.append([item(k, 'table')])
    singles = sorted({i for j in jobs for i in j})
    scripts = []
    for n in range(8 if th else 2):
        kinds = rng.sample(['plain', 'drift', 'late', 'gear', 'stuck', 'few', 'empty', 'otherid', 'fewhome', 'many'], 7)
        if n % 2:
            kinds[3] = 'nohome'
        scripts.append((n, [('table', k, pool_[10 * n + i + ck.seed % 100]) for i, k in enumerate(kinds)], [1, 3][n % 2], ck.work))
    with Pool(7, maxtasksperchild=1) as pool:
        rs = pool.map_async(script, scripts, chunksize=1)
        alone = pool.map_async(history, [([i], ck.work) for i in singles], chunksize=1)
        many = pool.map_async(history, [(j, ck.work) for j in jobs], chunksize=1)
        alone, many, sc = alone.get(), many.get(), rs.get()
    ref = dict(zip(singles, [a[0] for a in alone]))
    runs = [[{'op': 'start'}] + [ref[i] for i in dict.fromkeys(j)] + evs for j, evs in zip(jobs, many)]
    runs += [[{'op': 'start'}] + evs for evs in sc]
    ck.cov['outcomes'] = {}
    for r in runs:
        for e in r[1:]:
            k = e.get('out', 'raised')
            k += ' %d' % e['flags'] if k == 'flags' else ''
            ck.cov['outcomes'][k] = ck.cov['outcomes'].get(k, 0) + 1
    ck.sample({'history': [e['id'] for e in runs[0][1:]], 'last': runs[0][-1]})
    ck.judge_runs('CalibFitTrace', runs, lambda e, c, r: (c, {'event': e, 'history': [x.get('id') for x in r[1:]]}), per_chunk=800)
    ck.assumptions = ['error-free data with arcs in theta and in phi, arm lengths within 10 %, drifts up to 30 degrees; the optimiser is trusted to a few um',
                      'one window per positioner, or two for positioners that drift in the second half']
