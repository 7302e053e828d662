"""C19: merging calibration files (spec/Merge.tla, MergeModel.tla, MergeTrace.tla)."""
import io, os, runpy, shutil, sys
import numpy as np
import common
from multiprocessing import Pool
from common import BIN, q

LOC = ['LOCATION', 'DEVICE_LOC', 'PETAL_LOC', 'PETAL_ID']
BLANK = -999
_m = None


def metrology():
    global _m
    if _m is None:
        t = common.metrology()
        d = {}
        for r in t:
            if str(r['DEVICE_ID']).startswith('M'):
                d[str(r['DEVICE_ID'])] = {k: int(r[k]) for k in LOC}
        _m = d
    return _m


def merge(job):
    n, files, check, metro, seed, work = job
    from astropy.table import Table
    rs = np.random.default_rng([seed, n])
    met = metrology()
    d = os.path.join(work, 'm%d' % n)
    os.makedirs(d)
    idkey = ['POS_ID', 'POS_ID', 'DEVICE_ID', 'both'][rs.integers(4)]
    e = {'files': [], 'check': check, 'metro': metro, 'met': [], 'out': [], 'file': False}
    devs = sorted({r['dev'] for f in files for r in f['rows']})
    e['met'] = [{'dev': v, 'loc': met[v]} for v in devs if v in met]
    names, common = [], rs.random() < .5
    extra = [k for k in ('A_FLOAT', 'B_INT', 'C_TEXT', 'MOVE_CMD', 'MOVE_VAL1') if rs.random() < .6]
    perm = rs.permutation(100)
    for k, f in enumerate(files):
        ex = extra if common else [c for c in extra if rs.random() < .6]
        cols = {c: [] for c in ['ROWTAG'] + (['POS_ID'] if idkey in ('POS_ID', 'both') else []) + (['DEVICE_ID'] if idkey in ('DEVICE_ID', 'both') else []) + ex}
        order = list(cols) + list(f['cols'])
        rs.shuffle(order)
        move = bool(rs.random() < .5)
        rows = []
        for i, r in enumerate(f['rows']):
            vals = {'A_FLOAT': float(np.round(rs.normal() * 10, 5)), 'B_INT': int(rs.integers(-50, 50)), 'C_TEXT': 'note %d, "%d"' % (rs.integers(99), i), 'ROWTAG': 100 * k + i,
                    'MOVE_CMD': 'creep' if move else '', 'MOVE_VAL1': 'cw %d' % i if move else '', 'POS_ID': r['dev'], 'DEVICE_ID': r['dev'] if idkey == 'DEVICE_ID' else r['dev']}
            if 'A_FLOAT' in ex and rs.random() < .1 and i:
                vals['A_FLOAT'] = ''
            for c in f['cols']:
                vals[c] = '' if c in r['miss'] else r['loc'][c]
            rows.append(vals)
            rec = [code(vals[c]) if c in ex else BLANK for c in ('A_FLOAT', 'B_INT', 'C_TEXT')]
            if 'MOVE_CMD' in ex:
                rec.append(code(vals['MOVE_CMD'] or 'none'))
            else:
                rec.append(BLANK)
            r['vals'] = rec
        # the name of the file says nothing about its place
        p = os.path.join(d, '%02d_paramfits.csv' % perm[k])
        import csv
        with open(p, 'w', newline='') as fo:
            w = csv.writer(fo)
            w.writerow(order)
            for v in rows:
                w.writerow([v[c] for c in order])
        names.append(p)
        e['files'].append({'cols': list(f['cols']), 'rows': [{'dev': r['dev'], 'loc': r['loc'], 'miss': list(r['miss']), 'vals': r['vals']} for r in f['rows']]})
    out = os.path.join(d, 'merged.csv')
    argv, so, se = sys.argv, sys.stdout, sys.stderr
    sys.argv = ['merge_posparams', '-i'] + names + ['-o', out] + ([] if check else ['--no-check']) + ([] if metro else ['--no-metrology'])
    sys.stdout = sys.stderr = io.StringIO()
    try:
        runpy.run_path(os.path.join(BIN, 'merge_posparams'), run_name='__main__')
        e['rc'] = 'zero'
    except SystemExit as exc:
        e['rc'] = 'zero' if exc.code in (0, None) else 'error'
    except Exception as exc:
        e['rc'] = 'error'
        e['note'] = repr(exc)[:160]
    finally:
        sys.stdout, sys.stderr, sys.argv = so, se, argv
    if os.path.exists(out):
        e['file'] = True
        t = Table.read(out)
        key = 'DEVICE_ID' if idkey == 'DEVICE_ID' else 'POS_ID'
        for r in t:
            tag = int(r['ROWTAG'])
            e['out'].append({'f': tag // 100 + 1, 'i': tag % 100 + 1, 'dev': str(r[key]),
                             'loc': {c: place(r[c]) if c in t.colnames else BLANK for c in LOC},
                             'vals': [code(r[c]) if c in t.colnames else BLANK for c in ('A_FLOAT', 'B_INT', 'C_TEXT', 'MOVE_CMD')]})
    shutil.rmtree(d)
    return e


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def code(v):
    """projection of a cell on the integers"""
    if v is np.ma.masked or isinstance(v, (str, np.str_)) and v == '':
        return BLANK
    if isinstance(v, (str, np.str_)):
        import zlib
        return zlib.crc32(v.encode()) % 1000000
    return q(v, 1e5)


def place(v):
    if v is np.ma.masked:
        return BLANK
    v = float(v)
    return BLANK if v == -1 or v != v else q(v, 1) if v == int(v) else 1999999999


def random_files(rng):
    ids = rng.sample(sorted(metrology()), 6)
    unknown = ['M9%04d' % rng.randrange(9999), 'X00001']
    files = []
    base = rng.choice([[], ['PETAL_ID', 'PETAL_LOC', 'DEVICE_LOC'], LOC, LOC])
    p = rng.choice([0, 0, .06, .25])
    for _ in range(rng.randrange(1, 7)):
        cols = list(base) if rng.random() < .8 else rng.sample(LOC, rng.randrange(5))
        rows = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5])):
            dev = rng.choice(ids) if rng.random() < .9 else rng.choice(unknown)
            loc = dict(metrology().get(dev) or dict(LOCATION=3999, DEVICE_LOC=999, PETAL_LOC=3, PETAL_ID=8))
            miss = []
            if cols and rng.random() < p:
                other = metrology()[rng.choice(ids)]
                how = rng.random()
                if how < .4:
                    miss = rng.sample(cols, rng.randrange(1, len(cols) + 1))
                elif how < .7:
                    c = rng.choice(cols)
                    loc[c] = rng.choice([other[c], loc[c] + 1, loc[c] - 1, 0])
                else:
                    loc = dict(other)
            rows.append({'dev': dev, 'loc': loc, 'miss': miss})
        files.append({'cols': cols, 'rows': rows})
    return files


def run(ck):
    rng = ck.rng
    th = ck.thorough
    m = ck.model('MergeModel', workers=8, constants=None if th else {'MaxRows': 1, 'MaxOdd': 2})
    cases = m.cases()
    ck.refuted('MergeModel', workers=4, constants={'MaxFiles': 2, 'MaxRows': 1, 'NoFill': 'TRUE'})
    sim = ck.model('MergeModel', workers=4, constants={'MaxFiles': 4, 'MaxRows': 3, 'MaxOdd': 3}, simulate=3000 if th else 600, depth=40, seed=ck.seed)
    more = sim.cases()
    cases = rng.sample(cases, min(len(cases), 8000 if th else 330)) + rng.sample(more, min(len(more), 3000 if th else 150))
    known = sorted(metrology())
    jobs = []
    for c in cases:
        # the devices of the specification become devices of the real metrology
        K, L = rng.sample([k for k in known], 2)
        name = {'K': K, 'L': L, 'U': 'M99999'}
        files = []
        for f in c['files']:
            rows = []
            for r in f['rows']:
                own = {'K': [3005, 5, 3, 8], 'L': [3017, 17, 3, 8], 'U': [4002, 2, 4, 9]}[r['dev']]
                real = metrology().get(name[r['dev']]) or dict(zip(LOC, own))
                rows.append({'dev': name[r['dev']], 'loc': {k: real[k] + r['loc'][k] - o for k, o in zip(LOC, own)}, 'miss': r['miss']})
            files.append({'cols': f['cols'], 'rows': rows})
        jobs.append((len(jobs), files, c['check'], c['metro'], ck.seed, ck.work))
    for _ in range(5000 if th else 300):
        jobs.append((len(jobs), random_files(rng), rng.random() < .8, rng.random() < .8, ck.seed, ck.work))
    with Pool(7, initializer=quiet) as pool:
        ev = pool.map(merge, jobs, chunksize=8)
    ck.cov['merges'] = {'written': sum(1 for e in ev if e['file']), 'not written': sum(1 for e in ev if not e['file']), 'files': sum(len(e['files']) for e in ev)}
    ck.sample({'files': [[len(f['rows']), f['cols']] for f in ev[-1]['files']], 'check': ev[-1]['check'], 'rc': ev[-1]['rc']})
    ck.judge('MergeTrace', ev, lambda e, c: (c, e), chunk=300)
    ck.assumptions = ['every row has a device id', 'a column has the same kind of values in all files (text columns of moves may be empty)', 'the metrology is the one of the tree']
