"""C18: preparing calibrations for the instrument (spec/Prepare.tla,
PrepareModel.tla, PrepareTrace.tla)."""
import builtins, contextlib, glob, io, os, re, runpy, shutil, sys
import numpy as np
from multiprocessing import Pool
from common import BIN, q

PAR = ['LENGTH_R1', 'LENGTH_R2', 'OFFSET_T', 'OFFSET_P', 'OFFSET_X', 'OFFSET_Y']
LO = [25000, 25000, -2000000, -300000, -5000000, -5000000]
HI = [35000, 35000, 2000000, 300000, 5000000, 5000000]
FLAGS = {'THETA_STUCK': 1, 'PHI_STUCK': 2, 'FAILED_FIT': 4, 'INVALID_TABLE': 8, 'INVALID_AFTER_FILTER': 16}
REQ = ['POS_ID', 'FLAGS', 'DEVICE_LOC', 'NUM_POINTS', 'DATA_END_DATE', 'FIT_ERROR_STATIC', 'NUM_POINTS_IN_FIT_STATIC'] + [p + '_STATIC' for p in PAR]
DIS = 'DEVICE_CLASSIFIED_NONFUNCTIONAL'
WORDS = {'yes': ['y', 'yes', 'Y', 'YES', 'true', 'True'], 'no': ['n', 'no', 'N', 'No', 'false'], 'help': ['h', 'help', 'doc', 'man', 'HELP'], 'exit': ['exit'],
         'blank': [''], 'skip': ['skip', 's', 'SKIP', 'S'], 'junk': ['maybe', 'yy', ' y', '?', 'nan', 'inf', '0x', '1,5', '(y)']}
_pl = None


def nominal():
    global _pl
    if _pl is None:
        from astropy.table import Table
        from common import REPO
        t = Table.read(os.path.join(REPO, 'py/desimeter/data/positioner_locations_0530v18.csv'))
        _pl = [(int(d), float(x), float(y)) for d, x, y in zip(t['device_location_id'], t['FLAT_X'], t['FLAT_Y'])]
    return _pl


def word(rs, i):
    if i['w'] == 'int':
        return str(i['v'])
    if i['w'] == 'num':
        s = '%.4f' % (i['v'] / 1e4)
        s = s.rstrip('0') if rs.random() < .5 else s
        return s if not s.endswith('.') else s + '0'
    return WORDS[i['w']][rs.integers(len(WORDS[i['w']]))]


def build(rs, rows, extra):
    """the table in the file for the rows of the specification"""
    from astropy.table import Table
    pl = nominal()
    out, masks = [], []
    for n, r in enumerate(rows):
        dev, x, y = pl[int(rs.integers(len(pl)))]
        sg = [int(s) for s in rs.choice([-1, 1], 2)]
        d = dict(POS_ID=r['id'], ROW=n + 1, NUM_POINTS=50 + n, DATA_END_DATE='2020-03-%02d 00:00:00' % (n + 1), FLAGS=sum(FLAGS[f] for f in r['flags']),
                 FIT_ERROR_STATIC=(r['ferr'] + .3) / 1e4, FIT_ERROR_DYNAMIC=float(rs.uniform(0, .5)), NUM_POINTS_IN_FIT_STATIC=50 + n - r['nout'],
                 NUM_POINTS_IN_FIT_DYNAMIC=40, DEVICE_LOC=dev)
        vals = []
        for k, p in enumerate(PAR):
            v = (r['par'][k] + .3) / 1e4
            if k > 3 and r['off'][k - 4] is not None:
                v = (x, y)[k - 4] + sg[k - 4] * (r['off'][k - 4] + .3) / 1e4
            d[p + '_STATIC'] = v
            d[p + '_DYNAMIC'] = v + 1
            if extra:
                d['ERR.%s_STATIC' % p] = .01
            vals.append(v)
        for p in ('SCALE_T', 'SCALE_P'):
            d[p + '_STATIC'] = 1.
            d[p + '_DYNAMIC'] = float(rs.uniform(.3, 1))
            vals.append(d[p + '_DYNAMIC'])
        if extra:
            d['EPSILON_T_1_STATIC'] = 3.
        out.append((d, vals, dev, x, y))
        masks += [(n, c) for c in r['miss']]
    t = Table(rows=[o[0] for o in out], masked=True)
    rec = []
    for n, (r, (d, vals, dev, x, y)) in enumerate(zip(rows, out)):
        par = [int(np.floor(v * 1e4 + 1e-6)) for v in vals[:6]]
        off = [int(np.floor(abs(v - c) * 1e4 + 1e-6)) for v, c in zip(vals[4:6], (x, y))]
        miss = [p.split('_')[0] for p in []]
        rec.append({'id': r['id'], 'miss': list(r['miss']), 'nout': r['nout'], 'ferr': r['ferr'], 'flags': list(r['flags']), 'par': par, 'off': off,
                    'vals': [q(v, 1e6) if p + ('_STATIC' if k < 6 else '_DYNAMIC') not in r['miss'] else -7 for k, (p, v) in enumerate(zip(PAR + ['SCALE_T', 'SCALE_P'], vals))]})
    for n, c in masks:
        t[c].mask[n] = True
    return t, rec


def reasons(s):
    got = []
    s = str(s).split(' because: ')[-1]
    for part in s.split('; '):
        if part.startswith('paramfits file missing'):
            got.append('missing')
        elif part.startswith('number of outliers >'):
            got.append('outliers')
        elif part.startswith('FIT_ERROR_STATIC >'):
            got.append('fiterror')
        elif part.startswith('flag '):
            got.append(part)
        elif part.startswith('OFFSET_X or OFFSET_Y outside'):
            got.append('offsets')
        elif part.startswith('LENGTH_R1 or LENGTH_R2 outside'):
            got.append('arms')
        else:
            m = re.match(r'(\w+) (below min|above max)', part)
            if m:
                got.append(m.group(1))
    return sorted(set(got))


def truth(v):
    return str(v) in ('True', 'true', '1')


def session(job):
    n, rows, enabling, ins, seed, work = job
    rs = np.random.default_rng([seed, n])
    from astropy.table import Table
    d = os.path.join(work, 'p%d' % n)
    os.makedirs(d)
    t, rec = build(rs, rows, rs.random() < .5)
    t.write(os.path.join(d, 'all_paramfits.csv'))
    e = {'rows': rec, 'enabling': enabling, 'ins': ins, 'out': [], 'file': False}
    answers = iter([word(rs, i) for i in ins])
    used = [0]

    def answer(prompt=''):
        used[0] += 1
        try:
            return next(answers)
        except StopIteration:
            raise EOFError
    argv, real = sys.argv, builtins.input
    sys.argv = ['prepare_posparams_for_instr', '-i', os.path.join(d, 'all_paramfits.csv')] + (['-e'] if enabling else []) + (['-a'] if rs.random() < .2 else [])
    builtins.input = answer
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        runpy.run_path(os.path.join(BIN, 'prepare_posparams_for_instr'), run_name='__main__')
        e['rc'] = 'zero'
    except SystemExit as exc:
        e['rc'] = 'zero' if exc.code in (0, None) else 'error'
    except EOFError:
        e['rc'] = 'error'
    except Exception as exc:
        e['rc'] = 'error'
        e['note'] = repr(exc)[:160]
    finally:
        sys.stdout, sys.stderr = so, se
        sys.argv, builtins.input = argv, real
    e['used'] = used[0]
    res = glob.glob(os.path.join(d, '*_posparams_for_instr.csv'))
    if res:
        e['file'] = True
        o = Table.read(res[0])
        for r in o:
            vals = [-7 if r[k] is np.ma.masked else q(r[k], 1e6) for k in PAR + ['SCALE_T', 'SCALE_P']]
            e['out'].append({'n': int(r['ROW']), 'vals': vals, 'dis': truth(r[DIS]), 'com': [truth(r['COMMIT_' + k]) for k in PAR + [DIS]],
                             'scale': any(truth(r['COMMIT_' + k]) for k in ('SCALE_T', 'SCALE_P', 'PHYSICAL_RANGE_T', 'PHYSICAL_RANGE_P')),
                             'why': reasons(r['ENABLE_DISABLE_RATIONALE']) if enabling else []})
    shutil.rmtree(d)
    return e


def random_rows(rng, enabling):
    rows = []
    ids = ['M%05d' % i for i in rng.sample(range(100, 900), 6)]
    for _ in range(rng.randrange(1, 8)):
        r = {'id': rng.choice(ids), 'miss': [], 'nout': rng.choice([0, 0, 1, 2, 2]), 'ferr': rng.choice([50, 120, 299]), 'flags': [],
             'par': [30000 + rng.randrange(-4990, 4990) if rng.random() < .1 else 30000 + rng.randrange(-4000, 4000) for _ in 'ab'] + [rng.randrange(-1800000, 1800000), rng.randrange(-250000, 250000), 0, 0],
             'off': [rng.randrange(0, 4999), rng.randrange(0, 4999)]}
        k = rng.random()
        if k < .12:
            r['ferr'] = rng.choice([300, 301, 350, 5000])
        elif k < .24:
            r['nout'] = rng.choice([3, 4, 9])
        elif k < .34:
            r['flags'] = rng.sample(sorted(FLAGS), rng.choice([1, 1, 2]))
        elif k < .46:
            i = rng.randrange(4)
            r['par'][i] = rng.choice([LO[i] + rng.choice([-1, 0, 5]) * (HI[i] - LO[i]) // 10000, HI[i] - rng.choice([0, 3, 9, 10]) * (HI[i] - LO[i]) // 10000])
        elif k < .56:
            r['off'][rng.randrange(2)] = rng.choice([5000, 5001, 7000, 60000])
        elif k < .64:
            r['par'][rng.randrange(2)] = rng.choice([24999, 25000, 24990, 35000, 34999, 20000])
        elif k < .76:
            r['miss'] = rng.sample([c for c in REQ if c != 'POS_ID'], rng.choice([1, 1, 2]))
        rows.append(r)
    # at most two positioners have several rows
    n = {r['id']: sum(1 for x in rows if x['id'] == r['id']) for r in rows}
    keep = [i for i in n if n[i] > 1][:2]
    seen = set()
    rows = [r for r in rows if r['id'] in keep or r['id'] not in seen and not seen.add(r['id'])]
    return rows


def random_dialogue(rng, enabling, rows):
    I = lambda w, v=0: {'w': w, 'v': v}
    chat = lambda ws: [I(rng.choice(ws)) for _ in range(rng.choice([0, 0, 0, 0, 1, 2]))]
    ins = []
    if enabling:
        ins += chat(['no', 'help', 'blank', 'junk', 'skip']) + [I('yes')]
    for c in ('outliers', 'fiterror', 'flags', 'bounds', 'offsets', 'arms'):
        if c == 'flags':
            ins += [I(rng.choice(['blank', 'junk', 'no', 'exit']))]
            continue
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
            ins += chat(['help', 'junk', 'blank', 'skip']) + [I('yes')] + chat(['help', 'yes', 'no', 'junk'])
            v = {'outliers': lambda: I('int', rng.choice([0, 1, 2, 3, 5])), 'fiterror': lambda: I('num', rng.choice([100, 130, 300, 310, 400, 9000])),
                 'bounds': lambda: I('num', rng.choice([0, 5, 10, 20, 500])), 'offsets': lambda: I('num', rng.choice([1000, 3000, 5000, 6500, 20000])),
                 'arms': lambda: I('num', rng.choice([500, 2000, 5000, 5500]))}[c]()
            if rng.random() < .15:
                ins += [I('blank')]
                break
            ins += [v]
        else:
            ins += chat(['help', 'junk', 'blank', 'skip']) + [I('no')]
    ins += ['dup'] + [I('blank')]
    for _ in range(7):
        ins += chat(['help', 'junk', 'blank', 'skip']) + [I(rng.choice(['yes', 'yes', 'no']))]
    out = []
    for i in ins:
        if i == 'dup':
            if len({r['id'] for r in rows}) < len(rows):
                # not known here whether still duplicated: both versions are played
                out.append('dup')
        else:
            out.append(i)
    return out


def run(ck):
    rng = ck.rng
    th = ck.thorough
    m = ck.model('PrepareModel', workers=8, constants={'Extra': 2 if th else 1})
    tabs = {t['n']: t['rows'] for t in m.cases('TABLE')}
    cases = m.cases()
    if not th:
        r = ck.model('PrepareModel', workers=4, constants={'Extra': 9}, simulate=2500, depth=60, seed=ck.seed)
        more = r.cases()
        ck.cov['dialogues simulated on the model'] = len(more)
        cases = rng.sample(cases, min(len(cases), 450)) + rng.sample(more, min(len(more), 300))
    else:
        cases = rng.sample(cases, min(len(cases), 20000))
    ck.refuted('PrepareModel', workers=4, constants={'Extra': 2, 'Cumulative': 'TRUE', 'Tables': '{1}'})
    jobs = []

    def add(rows, e, ins):
        jobs.append((len(jobs), rows, e, ins, ck.seed, ck.work))
    for c in cases:
        # names of positioners decide the order in which the program asks
        name = {r['id']: 'M%05d' % i for r, i in zip(tabs[c['t']], rng.sample(range(100, 9000), len(tabs[c['t']])))}
        rows = [dict(r, id=name[r['id']], par=[v if k != 4 and k != 5 else 0 for k, v in enumerate(r['par'])]) for r in tabs[c['t']]]
        add(rows, c['e'], c['ins'])
    for _ in range(6000 if th else 220):
        e = rng.random() < .5
        rows = random_rows(rng, e)
        ins = random_dialogue(rng, e, rows)
        if 'dup' in ins:
            k = ins.index('dup')
            n = max(sum(1 for x in rows if x['id'] == r['id']) for r in rows)
            several = len({r['id'] for r in rows if sum(1 for x in rows if x['id'] == r['id']) > 1})
            for m in range(several + 1):
                ch = []
                for _ in range(m):
                    ch += [{'w': 'junk', 'v': 0}] * rng.choice([0, 0, 1]) + [rng.choice([{'w': 'skip', 'v': 0}] + [{'w': 'int', 'v': i} for i in range(n + 1)] * 2)]
                    if ch[-1]['w'] == 'int' and ch[-1]['v'] == n:
                        ch += [{'w': 'int', 'v': 0}]
                add(rows, e, ins[:k] + ch + ins[k + 1:])
        else:
            add(rows, e, ins)
    nominal()
    import desimeter.posparams.fitter, desimeter.posparams.movemask  # noqa: F401 (before forking)
    with Pool(7) as pool:
        ev = pool.map(session, jobs, chunksize=8)
    ck.cov['sessions'] = {'with table': sum(1 for e in ev if e['file']), 'without': sum(1 for e in ev if not e['file'])}
    ck.sample({'entered': [i['w'] for i in jobs[0][3]], 'rows': len(jobs[0][1]), 'written': ev[0]['file']})
    ck.judge('PrepareTrace', ev, lambda e, c: (c, e), chunk=250)
    ck.assumptions = ['missing values are blank cells of the file (a value written as nan is not missing to the program)', 'values are not within 1e-9 of a limit',
                      'at least one row is left', 'tolerances entered are not negative']
