"""C20: exports of the moves database (spec/Export.tla, ExportModel.tla, ExportTrace.tla)."""
import glob, io, os, runpy, shutil, sys, zlib
import numpy as np
from multiprocessing import Pool
from common import BIN, q
import fakepg

BLANK = -999
MCOLS = ['POS_T', 'POS_P', 'X_FP', 'Y_FP', 'LOG_NOTE', 'MOVE_CMD', 'MOVE_VAL1', 'BUS_ID', 'EXPOSURE_ID', 'EXPOSURE_ITER', 'POS_ID', 'PETAL_ID', 'DEVICE_LOC', 'CTRL_ENABLED', 'FLAGS']
HCOLS = ['LOG_NOTE', 'MOVE_CMD', 'MOVE_VAL1', 'BUS_ID', 'EXPOSURE_ID', 'EXPOSURE_ITER', 'POS_ID', 'PETAL_ID', 'DEVICE_LOC', 'CTRL_ENABLED', 'FLAGS']
CCOLS = ['LENGTH_R1', 'OFFSET_T', 'OFFSET_X', 'FIBER_INTACT', 'DEVICE_CLASSIFIED_NONFUNCTIONAL', 'CALIB_NOTE', 'CALIB_DATE']
CHCOLS = ['FIBER_INTACT', 'DEVICE_CLASSIFIED_NONFUNCTIONAL', 'CALIB_NOTE', 'CALIB_DATE']
PCOLS = ['POS_CALIB_INDEX', 'LENGTH_R1', 'LENGTH_R2', 'OFFSET_T', 'OFFSET_P', 'OFFSET_X', 'OFFSET_Y', 'GEAR_CALIB_T', 'DEVICE_CLASSIFIED_NONFUNCTIONAL']
KEEP = ['POS_T', 'POS_P', 'X_FP_MEAS', 'Y_FP_MEAS', 'LOG_NOTE', 'MOVE_CMD', 'BUS_ID', 'EXPOSURE_ID', 'EXPOSURE_ITER', 'PETAL_ID', 'DEVICE_LOC', 'CTRL_ENABLED']


def cell(v):
    if v is np.ma.masked or v is None:
        return BLANK
    s = str(v)
    if s in ('None', '', 'nan'):
        return BLANK
    if s in ('True', 'False'):
        return 10000 * (s == 'True')
    try:
        return q(float(s), 1e4)
    except ValueError:
        return zlib.crc32(s.encode()) % 1000000


CALIB = '''pos_id petal_id pos_calib_index time_recorded length_r1 length_r2 offset_x offset_y offset_t offset_p physical_range_t physical_range_p gear_calib_t gear_calib_p
total_limit_seeks_t total_limit_seeks_p last_primary_hardstop_dir_t last_primary_hardstop_dir_p keepout_expansion_phi_radial keepout_expansion_phi_angular
keepout_expansion_theta_radial keepout_expansion_theta_angular classified_as_retracted device_classified_nonfunctional fiber_intact calib_note device_loc'''.split()


def tables(db, rs):
    """rows of the database for the events of the specification"""
    t = {}
    dev, ids = {}, {}
    for p in sorted({m['pos'] for m in db['moves']} | {c['pos'] for c in db['calibs']}):
        dev[p] = int(rs.integers(1, 540))
    petals = {m['pos']: m['petal'] for m in db['moves']}
    for m in db['moves']:
        note = '' if rs.random() < .1 else 'seq %d, step %d' % (m['exp'], m['iter'])
        if m['tp']:
            note = str(rs.choice(['tp_update', 'handle_fvc_feedback: tp_update_posTP, dT=1', 'auto tp_update; x']))
        elif rs.random() < .2:
            note = str(rs.choice(['update of tp', 'TP_UPDATE', 'tpupdate, none', 'arc calibration, use_desimeter=True']))
        if note == '' and rs.random() < .5:
            note = None
        row = dict(pos_id=m['pos'], petal_id=m['petal'], device_loc=dev[m['pos']], bus_id=int(rs.integers(10, 25)), time_recorded=fakepg.stamp(m['t']),
                   pos_move_index=m['idx'], pos_t=float(np.round(rs.uniform(-180, 180), 4)), pos_p=float(np.round(rs.uniform(0, 180), 4)),
                   obs_x=float(np.round(rs.uniform(-400, 400), 4)) if m['meas'] else None, obs_y=float(np.round(rs.uniform(-400, 400), 4)) if m['meas'] else None,
                   exposure_id=m['exp'], exposure_iter=m['iter'], log_note=note, move_cmd='QS=(%d, 2)' % m['exp'] if m['cmd'] else ['', None][int(rs.integers(2))],
                   move_val1='cruise cw %d' % m['id'] if m['cmd'] else '', move_val2='', ctrl_enabled=m['ctrl'], flags=int(rs.integers(100)))
        m['row'] = row
        t.setdefault('positioner_moves_p%d' % m['petal'], []).append(row)
    for c in db['calibs']:
        if c['pos'] not in petals:
            continue
        row = dict(pos_id=c['pos'], petal_id=petals[c['pos']], pos_calib_index=c['id'], time_recorded=fakepg.stamp(c['t']), length_r1=float(np.round(rs.uniform(2.8, 3.2), 4)),
                   length_r2=float(np.round(rs.uniform(2.8, 3.2), 4)), offset_x=float(np.round(rs.uniform(30, 300), 4)), offset_y=float(np.round(rs.uniform(30, 60), 4)),
                   offset_t=float(np.round(rs.uniform(-90, 90), 4)), offset_p=float(np.round(rs.uniform(-10, 10), 4)), physical_range_t=380., physical_range_p=190.,
                   gear_calib_t=1., gear_calib_p=1., total_limit_seeks_t=1, total_limit_seeks_p=2, last_primary_hardstop_dir_t=1, last_primary_hardstop_dir_p=1,
                   keepout_expansion_phi_radial=0., keepout_expansion_phi_angular=0., keepout_expansion_theta_radial=0., keepout_expansion_theta_angular=0.,
                   classified_as_retracted=0, device_classified_nonfunctional=c['nonf'], fiber_intact=c['intact'], calib_note='fit %d' % c['id'])
        row['device_loc'] = dev[c['pos']]
        c['row'] = row
        t.setdefault('positioner_calibration_p%d' % petals[c['pos']], []).append(row)
    for k in list(t):
        # all rows of a table have the same columns, in no order
        cols = set.intersection(*[set(r) for r in t[k]])
        t[k] = [{c: r[c] for c in t[k][0] if c in cols} for r in (t[k][i] for i in rs.permutation(len(t[k])))]
    for p in petals.values():
        t.setdefault('positioner_calibration_p%d' % p, [])
        if not t['positioner_calibration_p%d' % p]:
            row = {k: 0 for k in CALIB} | dict(pos_id='none', petal_id=p, time_recorded=fakepg.stamp(0))
            t['positioner_calibration_p%d' % p] = [row]
    return t


def export(job):
    n, db, opt, prog, at, merge, seed, work = job
    rs = np.random.default_rng([seed, n])
    from astropy.table import Table
    d = os.path.join(work, 'x%d' % n)
    os.makedirs(d)
    tabs = tables(db, rs)
    sys.modules['psycopg2'] = fakepg.Module(tabs, aware=bool(rs.random() < .5))
    e = {'prog': prog, 'at': at or [], 'opt': opt, 'out': [], 'moves': [], 'calibs': []}
    hist = opt['hist'] and not opt['latest']
    mcols = KEEP if prog == 'coords' else HCOLS if hist else MCOLS
    ccols = PCOLS if prog == 'coords' else CHCOLS if hist else CCOLS
    src = {'X_FP': 'obs_x', 'Y_FP': 'obs_y', 'X_FP_MEAS': 'obs_x', 'Y_FP_MEAS': 'obs_y'}
    e['ncv'] = len(ccols)
    comma = ';' if prog == 'coords' else '||'
    args = []
    if prog == 'moves' and rs.random() < .2:
        comma = '<>'
        args += ['--comma-replacement', comma]
    secs = lambda s: BLANK if str(s) in ('None', '', '--') else int((np.datetime64(str(s)[:19].replace(' ', 'T')) - np.datetime64('2020-01-01T00:00:00')) / np.timedelta64(1, 's'))
    for c in db['calibs']:
        if 'row' in c:
            row = dict(c['row'])
            cv = [c['t'] if k == 'CALIB_DATE' else cell(row[k.lower()] if k not in ('FIBER_INTACT', 'DEVICE_CLASSIFIED_NONFUNCTIONAL') else bool(row[k.lower()])) for k in ccols]
            e['calibs'].append({k: c[k] for k in ('id', 'pos', 't', 'nonf', 'intact')} | {'cv': cv})
    for m in db['moves']:
        row = m['row']
        mv = []
        for k in mcols:
            v = row[src.get(k, k.lower())]
            if k == 'LOG_NOTE' and v is not None:
                v = v.replace(',', comma)
            if k == 'CTRL_ENABLED':
                v = bool(v)
            mv.append(cell(v))
        xy = []
        if prog == 'coords':
            from desimeter.transform.pos2ptl import int2ptl
            from desimeter.transform.ptl2fp import ptl2fp
            from desimeter.dbutil import get_petal_loc
            for c in db['calibs']:
                if c['pos'] == m['pos'] and 'row' in c:
                    r = c['row']
                    x, y = int2ptl(row['pos_t'], row['pos_p'], r['length_r1'], r['length_r2'], r['offset_t'], r['offset_p'], r['offset_x'], r['offset_y'])
                    X, Y, _ = ptl2fp(LOC[m['petal']], np.array([x]), np.array([y]), None)
                    xy.append({'c': c['id'], 'v': [q(X[0], 1e4), q(Y[0], 1e4)]})
        e['moves'].append({k: m[k] for k in ('id', 'pos', 'petal', 't', 'exp', 'iter', 'idx', 'tp', 'meas', 'cmd', 'ctrl')} | {'mv': mv, 'xy': xy})
    if opt['petals']:
        args += ['--petal-ids', ','.join(str(p) for p in opt['petals'])]
    if prog == 'moves':
        args += ['-o', os.path.join(d, 'out', 'sub')]
        if opt['exps']:
            args += ['--exposure-ids', ','.join(str(p) for p in opt['exps'])]
        if opt['iters']:
            args += ['--exposure-iters', ','.join(str(p) for p in opt['iters'])]
        if opt['dates'] != [0, 2000000000]:
            day = lambda s: str(np.datetime64('2020-01-01') + np.timedelta64(s // 86400, 'D'))
            args += ['--date-min', day(opt['dates'][0]), '--date-max', day(opt['dates'][1])]
        if opt['movers']:
            args += ['--pos-ids', 'movers']
        elif opt['only']:
            args += ['--pos-ids', ','.join(opt['only'])]
        args += ['-c'] * opt['calib'] + ['-t'] * opt['tp'] + ['-e'] * opt['hist'] + ['-m'] * merge
        if opt['rehome']:
            args += ['--recent-rehome-exposure-ids', ','.join(str(p) for p in opt['rehome'])]
        if opt['latest']:
            args += ['--latest', str(opt['latest'])]
    else:
        args += ['-o', os.path.join(d, 'out.csv')]
        if at:
            args += ['--exposure-id', str(at[0])] + (['--exposure-iter', str(at[1])] if at[1] or rs.random() < .5 else [])
    if opt['latest'] == 0 or prog == 'coords':
        pass
    if merge:
        os.makedirs(os.path.join(d, 'out', 'sub'))
    argv = sys.argv
    script = 'get_posmoves' if prog == 'moves' else 'get_poscoords'
    sys.argv = [script] + args
    e['args'] = args
    try:
        runpy.run_path(os.path.join(BIN, script), run_name='__main__')
        e['rc'] = 'zero'
    except SystemExit as exc:
        e['rc'] = 'zero' if exc.code in (0, None) else 'error'
    except Exception as exc:
        e['rc'] = 'error'
        e['note'] = repr(exc)[:200]
    finally:
        sys.argv = argv
    files = [os.path.join(d, 'out.csv')] if prog == 'coords' else sorted(glob.glob(os.path.join(d, 'out', 'sub', '*.csv')))
    by = {}
    for f in files:
        if not os.path.exists(f):
            continue
        t = Table.read(f, format='ascii.csv')
        one = prog == 'moves' and not merge
        if one:
            by.setdefault(os.path.basename(f)[:-4], [])
        for r in t:
            def mget(k):
                if k not in t.colnames:
                    return -998
                return cell(r[k])
            o = {'t': secs(r['DATE']), 'mv': [mget(k) for k in mcols], 'cv': [], 'loc': cell(r['PETAL_LOC']) // 10000, 'rehome': int(r['RECENT_REHOME']) if 'RECENT_REHOME' in t.colnames else 0}
            if prog == 'coords' or opt['calib'] or opt['latest']:
                o['cv'] = [secs(r[k]) if k == 'CALIB_DATE' and k in t.colnames else mget(k) for k in ccols]
            if prog == 'coords':
                o['xy'] = [q(r['X_FP_EXP'], 1e4), q(r['Y_FP_EXP'], 1e4)]
                # flags of calibrations are stored as numbers here
            by.setdefault(os.path.basename(f)[:-4] if one else str(r['POS_ID']), []).append(o)
    e['out'] = [{'pos': p, 'rows': by[p]} for p in sorted(by)]
    shutil.rmtree(d)
    return e


LOC = {2: 7, 3: 3, 4: 0, 5: 1, 6: 2, 7: 8, 8: 4, 9: 9, 10: 5, 11: 6, 1: 0, 0: 0}


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    import warnings
    warnings.simplefilter('ignore')


def random_history(rng, ties=True, tp=.25, steps=None, npos=None):
    """the actions of ExportModel on more positioners and petals"""
    petals = rng.sample([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 1], rng.randrange(1, 4))
    pos = ['M%05d' % i for i in rng.sample(range(1, 9000), npos or rng.randrange(1, 7))]
    pet = {p: rng.choice(petals) for p in pos}
    t = rng.choice([0, 5000, 80000])
    exp, it = rng.randrange(1, 4000), 0
    moves, calibs, ctrl, idx = [], [], {p: 1 for p in pos}, {p: rng.choice([0, 0, 1, 57]) for p in pos}
    n = 0
    if not ties:
        for p in pos:
            n += 1
            calibs.append(dict(id=n, pos=p, t=t, nonf=0, intact=1))
        t += 10
    for _ in range(steps or rng.randrange(2, 14)):
        for p in pos:
            if rng.random() < .15:
                ctrl[p] = 1 - ctrl[p]
            r = rng.random()
            if r < .25:
                n += 1
                calibs.append(dict(id=n, pos=p, t=t, nonf=int(rng.random() < .3), intact=int(rng.random() < .7)))
                if not ties:
                    continue
            if rng.random() < .75:
                n += 1
                updates = rng.random() < tp
                moves.append(dict(id=n, pos=p, petal=pet[p], t=t, exp=exp, iter=it, idx=idx[p], tp=updates, meas=(not updates and rng.random() < .85), cmd=0 if updates or rng.random() < .2 else 1, ctrl=ctrl[p]))
                idx[p] += 1
        t += rng.choice([1, 60, 3600, 86400 - t % 86400, 86400])
        r = rng.random()
        if r < .4:
            it += 1
        elif r < .7:
            exp, it = exp + rng.choice([1, 1, 17]), 0
    return {'moves': moves, 'calibs': calibs}


def options(rng, db, prog):
    mv = db['moves']
    pick = lambda S, k: sorted(rng.sample(S, min(len(S), rng.randrange(1, k + 1))))
    exps, iters = sorted({m['exp'] for m in mv}), sorted({m['iter'] for m in mv})
    o = dict(dates=[0, 2000000000], exps=[], iters=[], petals=[], only=[], movers=False, calib=rng.random() < .6, tp=rng.random() < .5, rehome=[], latest=0, hist=rng.random() < .15)
    if rng.random() < .5:
        o['exps'] = pick(exps, 3)
        if rng.random() < .2:
            o['exps'].append(99999)
    if rng.random() < .3:
        o['iters'] = pick(iters, 2)
    if rng.random() < .3:
        days = sorted({m['t'] // 86400 for m in mv})
        a = rng.choice(days) * 86400
        o['dates'] = [a, a + 86400 * rng.choice([1, 1, 2, 5])]
    if rng.random() < .3:
        o['petals'] = pick(sorted({m['petal'] for m in mv}), 2)
    if rng.random() < .25:
        o['only'] = pick(sorted({m['pos'] for m in mv}), 3)
    elif rng.random() < .15:
        o['movers'] = True
    if rng.random() < .5:
        o['rehome'] = pick(exps, 2)
    if rng.random() < .2:
        o['latest'] = rng.randrange(1, 4)
    if prog == 'coords':
        o = dict(dates=[0, 2000000000], exps=[], iters=[], petals=o['petals'], only=[], movers=False, calib=True, tp=False, rehome=[], latest=0, hist=False)
    return o


def run(ck):
    rng = ck.rng
    th = ck.thorough
    m = ck.model('ExportModel', workers=8, constants={'MaxEvents': 6 if th else 4})
    cases = m.cases()
    ck.refuted('ExportModel', workers=4, constants={'ByTime': 'FALSE', 'MaxEvents': 3})
    sim = ck.model('ExportModel', workers=4, constants={'MaxEvents': 12}, simulate=2000 if th else 250, depth=14, seed=ck.seed)
    more = sim.cases()
    cases = rng.sample(cases, min(len(cases), 6000 if th else 130)) + rng.sample(more, min(len(more), 2000 if th else 100))
    jobs = []

    def add(db, prog='moves'):
        if not db['moves']:
            return
        o = options(rng, db, prog)
        at = None
        if prog == 'coords' and rng.random() < .7:
            x = rng.choice(db['moves'])
            at = [x['exp'], x['iter']]
        jobs.append((len(jobs), db, o, prog, at, prog == 'moves' and rng.random() < .35, ck.seed, ck.work))
    for c in cases:
        name = {'P': 'M%05d' % rng.randrange(5000), 'Q': 'M%05d' % (5000 + rng.randrange(4000))}
        f = rng.choice([1, 8640, 43200])
        db = {k: [dict(x, pos=name[x['pos']], t=x['t'] * f) for x in c[k]] for k in ('moves', 'calibs')}
        add(db)
    for _ in range(4000 if th else 220):
        add(random_history(rng))
    for _ in range(1000 if th else 90):
        # exposures here and there, and the updates around them
        db = random_history(rng, tp=.5)
        exps = sorted({m['exp'] for m in db['moves']})
        if len(exps) > 2:
            o = options(rng, db, 'moves') | dict(tp=True, latest=0, exps=sorted(rng.sample(exps[:-1], rng.randrange(1, len(exps) - 1))), iters=[], dates=[0, 2000000000])
            jobs.append((len(jobs), db, o, 'moves', None, rng.random() < .35, ck.seed, ck.work))
    for _ in range(2000 if th else 90):
        add(random_history(rng, ties=False), 'coords')
    for steps, n in [(900, 1), (5, 250)] * (3 if th else 1):
        # long histories, and many positioners
        db = random_history(rng, steps=steps, npos=n)
        o = options(rng, db, 'moves') | dict(latest=0, exps=[], iters=[], dates=[0, 2000000000], petals=[], only=[], movers=False)
        jobs.append((len(jobs), db, o, 'moves', None, rng.random() < .35, ck.seed, ck.work))
    with Pool(7, initializer=quiet) as pool:
        ev = pool.map(export, jobs, chunksize=4)
    ck.cov['exports'] = {'moves': sum(1 for e in ev if e['prog'] == 'moves'), 'coords': sum(1 for e in ev if e['prog'] == 'coords'),
                         'rows written': sum(len(o['rows']) for e in ev for o in e['out']), 'empty': sum(1 for e in ev if not e['out'])}
    ck.sample({'args': ev[-200]['args'][2:], 'moves': len(ev[-200]['moves']), 'rows': [len(o['rows']) for o in ev[-200]['out']]})
    ck.judge('ExportTrace', ev, lambda e, c: (c, e), chunk=80)
    ck.assumptions = ['a positioner has moves of one petal only', 'two moves of a positioner are not recorded in the same second', 'the queries run on SQLite in place of PostgreSQL (dates, LIKE and regular expressions translated)',
                      'get_poscoords: every positioner has a calibration before its move, none at the very same time']
