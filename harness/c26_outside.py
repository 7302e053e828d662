"""C26: the external matching program (spec/Outside.tla, OutsideModel.tla, OutsideTrace.tla).
The program is a stand-in that records what it is given and does what the model says."""
import json, os, shutil, stat, sys, threading, time
import numpy as np
from multiprocessing import Pool
from common import PY, REPO

STANDIN = '''#!%s -SE
import json, os, sys, time
here = os.path.dirname(os.path.abspath(__file__))
a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
key = a.get('-match_radius', 'x')
try:
    plan = json.load(open(os.path.join(here, 'plan_%%s.json' %% key)))
except OSError:
    sys.exit(9)
if plan['prog'] == 'old' and '-positioner_reach' in a:
    print('unexpected command-line argument [ -positioner_reach ]')
    sys.exit(1)
def gate(w):
    if plan['gate'] != w:
        return
    open(os.path.join(here, 'at_' + key), 'w').close()
    t = time.time()
    while not os.path.exists(os.path.join(here, 'go_' + key)) and time.time() - t < 60:
        time.sleep(.005)
gate(1)
rec = dict(args=a, files={})
for k in ('-fiducial_config_file', '-target_pos_file', '-measured_pos_file', '-reference_pos_file', '-device_centers_file'):
    try:
        rec['files'][k] = open(a[k]).read()
    except (OSError, KeyError):
        rec['files'][k] = ''
json.dump(rec, open(os.path.join(here, 'rec_%%s.json' %% key), 'w'))
gate(2)
if plan['prog'] == 'fails':
    gate(3)
    print('cannot match')
    sys.exit(3)
if plan['prog'] != 'silent':
    with open(a['-reduced_pos_file'], 'w') as f:
        f.write(plan['text'])
gate(3)
'''


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    import warnings
    warnings.simplefilter('ignore')


m = lambda v: int(round(float(v) * 1000))


def focal_plane(rs, d):
    """a small focal plane: part of the metrology, shuffled"""
    from astropy.table import Table
    src = os.path.join(REPO, 'py/desimeter/data')
    os.makedirs(d)
    T = Table.read(os.path.join(src, 'fp-metrology.csv'))
    keep = []
    for kind, n in (('POS', 12), ('FIF', 4), ('GIF', 2), ('ETC', 1), ('GIF-T', 1)):
        locs = rs.choice(np.unique(T['LOCATION'][T['DEVICE_TYPE'] == kind]), min(n, len(np.unique(T['LOCATION'][T['DEVICE_TYPE'] == kind]))), replace=False)
        keep += [i for i in range(len(T)) if T['LOCATION'][i] in locs and T['DEVICE_TYPE'][i] == kind]
    # fiducials with more than four pinholes
    many = T['LOCATION'][(T['DEVICE_TYPE'] == 'FIF') & (T['PINHOLE_ID'] > 4)]
    keep = sorted(set(keep) | {i for i in range(len(T)) if T['LOCATION'][i] in many})
    T = T[rs.permutation(keep)]
    T.write(os.path.join(d, 'fp-metrology.csv'), overwrite=True)
    shutil.copy(os.path.join(src, 'init-fvc2fp.json'), d)
    return Table.read(os.path.join(d, 'fp-metrology.csv'))


def describe(T, loc):
    t = T[T['LOCATION'] == loc][0]
    return ' '.join(str(t[k]) for k in ('DEVICE_TYPE', 'DEVICE_LOC', 'DEVICE_ID', 'PETAL_LOC', 'PETAL_ID', 'BUS_ID'))


class One:
    """one call of spotmatch and the plan of its program"""
    def __init__(self, rs, T, place, key, prog, gate, tx):
        from desimeter.transform.fvc2fp import FVC2FP
        from desimeter.io import fvc2fp_filename
        self.key, self.prog, self.gate, self.place = key, prog, gate, place
        pos = T[T['DEVICE_TYPE'] == 'POS']
        fid = T[(T['DEVICE_TYPE'] == 'FIF') | (T['DEVICE_TYPE'] == 'GIF')]
        self.tx = None
        t = FVC2FP.read_jsonfile(fvc2fp_filename())
        if tx:
            t.offset_x += rs.uniform(-.003, .003)
            t.rotation += rs.uniform(-.5, .5)
            self.tx = t
        n = rs.randint(1, 20)
        self.x, self.y = rs.uniform(100, 5900, n), rs.uniform(100, 5900, n)
        self.kw = {}
        if tx or rs.rand() < .6:
            k = rs.permutation(len(pos))[:rs.randint(1, len(pos) + 1)]
            ex, ey, el = pos['X_FP'][k] + rs.uniform(-3, 3, len(k)), pos['Y_FP'][k] + rs.uniform(-3, 3, len(k)), pos['LOCATION'][k]
            self.kw = dict(expected_x_fp=ex, expected_y_fp=ey, expected_location=el)
        else:
            ex, ey, el = pos['X_FP'], pos['Y_FP'], pos['LOCATION']
        fl = sorted(set(int(v) for v in fid['LOCATION']))
        cx = {l: float(np.mean(fid['X_FP'][fid['LOCATION'] == l])) for l in fl}
        cy = {l: float(np.mean(fid['Y_FP'][fid['LOCATION'] == l])) for l in fl}

        def pixels(xs, ys, labels, flags):
            px, py = t.fp2fvc(np.array(xs, float), np.array(ys, float))
            return [[int(a), m(b), m(c), int(f)] for a, b, c, f in zip(labels, px, py, flags)]
        W = {'measured': [[i + 1, m(a), m(b), 0] for i, (a, b) in enumerate(zip(self.x, self.y))]}
        fx, fy = [cx[l] for l in fl], [cy[l] for l in fl]
        W['targets'] = pixels(list(ex) + fx, list(ey) + fy, list(el) + fl, [4] * len(el) + [8] * len(fl))
        if not tx:
            W['centers'] = pixels(list(pos['X_FP']) + fx, list(pos['Y_FP']) + fy, list(pos['LOCATION']) + fl, [4] * len(pos) + [8] * len(fl))
            r = fid[fid['PINHOLE_ID'] <= 4]
            W['references'] = pixels(r['X_FP'], r['Y_FP'], r['LOCATION'], [{1: 515, 2: 1027, 3: 259, 4: 771}[int(p)] for p in r['PINHOLE_ID']])
        W['fiducials'] = [[l, 0, 0, 8] for l in fl] + [[int(f['LOCATION']), m(f['X_FP'] - cx[f['LOCATION']]), m(f['Y_FP'] - cy[f['LOCATION']]), 100 * int(f['PINHOLE_ID']) + 2] for f in fid if f['PINHOLE_ID'] <= 4]
        self.want = W
        a, b = t.fvc2fp(np.array([2900., 3100., 3000., 3000.]), np.array([3000., 3000., 2900., 3100.]))
        self.scale = abs((a[1] - a[0]) * (b[3] - b[2]) - (a[3] - a[2]) * (b[1] - b[0])) ** .5 / 200
        # the output of the program
        L = []
        for l in rs.permutation(np.array(pos['LOCATION'], int))[:rs.randint(0, len(pos))]:
            L.append([int(l), 'positioner'])
        for l in fl:
            if rs.rand() < .7:
                L += [[l, 'fiducial']] + [[l, 'pinhole']] * rs.randint(0, 5)
        L += [[-1 - int(k) * rs.randint(2), 'unmatched'] for k in range(rs.randint(0, 4))]
        L = [L[i] for i in rs.permutation(len(L))]
        self.lines = [dict(loc=l, type=w, x=m(rs.uniform(100, 5900)), y=m(rs.uniform(100, 5900)), flag=int(rs.randint(0, 9)), err=int(rs.randint(0, 500))) for l, w in L]
        text = ''.join(' %d %.3f %.3f 12.%03d %d %.3f %s\n' % (v['loc'], v['x'] / 1000, v['y'] / 1000, rs.randint(1000), v['flag'], v['err'] / 1000, v['type']) for v in self.lines)
        if rs.rand() < .4:
            text = '# spots matched\n' + text + '\n'
        self.info = [dict(loc=int(l), what=describe(T, l)) for l in sorted(set(v['loc'] for v in self.lines if v['loc'] >= 0))]
        json.dump(dict(prog=prog, gate=gate, text=text), open(os.path.join(place, 'plan_%s.json' % key), 'w'))
        self.rc, self.res = '?', None

    def run(self):
        from desimeter.spotmatch import spotmatch
        try:
            self.res = spotmatch(self.x.copy(), self.y.copy(), match_radius_pixels=self.key, fvc2fp=self.tx, **self.kw)
            self.rc = 'ok'
        except Exception as e:
            self.rc = 'refused'
            self.note = repr(e)[:200]

    def event(self):
        e = dict(op='call', prog=self.prog, gate=self.gate, rc=self.rc, want=self.want, given={k: [] for k in self.want}, asked=False, radius=0, myradius=self.key, scale=0, reach=0,
                 myscale=int(round(self.scale * 1e6)), lines=self.lines, info=self.info, rows=[], note=getattr(self, 'note', ''))
        p = os.path.join(self.place, 'rec_%s.json' % self.key)
        if os.path.exists(p):
            r = json.load(open(p))
            e['asked'] = True
            num = lambda k: float(r['args'].get(k, 0))
            e['radius'], e['scale'] = int(num('-match_radius')), int(round(num('-exp_pixel_scale') * 1e6))
            e['reach'] = int(round(num('-positioner_reach') * self.scale * 1000))
            F = {k: [w.split() for w in t.splitlines() if w.split()] for k, t in r['files'].items()}
            try:
                e['given'] = {k: v for k, v in {
                    'measured': [[int(w[3]), m(w[0]), m(w[1]), 0] for w in F['-measured_pos_file']],
                    'targets': [[int(w[0]), m(w[1]), m(w[2]), int(w[5])] for w in F['-target_pos_file']],
                    'centers': [[int(w[0]), m(w[1]), m(w[2]), int(w[5])] for w in F['-device_centers_file']],
                    'references': [[int(w[0]), m(w[1]), m(w[2]), int(w[4])] for w in F['-reference_pos_file']],
                    'fiducials': [[int(w[0]), m(w[1]), m(w[2]), 100 * int(w[5]) + int(w[6])] for w in F['-fiducial_config_file']]}.items() if k in self.want}
            except (ValueError, IndexError, KeyError):
                pass
        if self.rc == 'ok':
            for r in self.res:
                loc = int(r['LOCATION'])
                what = ' '.join(str(r[k]) for k in ('DEVICE_TYPE', 'DEVICE_LOC', 'DEVICE_ID', 'PETAL_LOC', 'PETAL_ID', 'BUS_ID')) if loc >= 0 else 'none' if str(r['DEVICE_TYPE']) == str(r['DEVICE_ID']) == 'unknown' else 'some'
                e['rows'].append(dict(loc=loc, x=m(r['XPIX']), y=m(r['YPIX']), flag=int(round(float(r['FLAG']))), err=m(r['ERR']), type=str(r['SPOTMATCH_DEVICE_TYPE']), pin=int(r['PINHOLE_ID']), info=what))
        return e


def histories(job):
    seed, cases, work = job
    import tempfile
    rs = np.random.RandomState(seed)
    W = os.path.join(work, 'o%d' % seed)
    place, tmp = os.path.join(W, 'bin'), os.path.join(W, 'tmp')
    os.makedirs(place)
    os.makedirs(tmp)
    p = os.path.join(place, 'match_positions')
    with open(p, 'w') as f:
        f.write(STANDIN % PY)
    os.chmod(p, 0o755)
    old = {k: os.environ.get(k) for k in ('PATH', 'DESIMETER_DATA', 'TMPDIR')}
    oldtmp, tempfile.tempdir = tempfile.tempdir, tmp
    E = []
    try:
        T = focal_plane(rs, os.path.join(W, 'data'))
        os.environ['DESIMETER_DATA'] = os.path.join(W, 'data')
        os.environ['TMPDIR'] = tmp
        k = 10
        for c in cases:
            missing = c.get('missing', False)
            os.environ['PATH'] = os.path.join(W, 'nothing') + ':/usr/bin:/bin' if missing else place + ':' + old['PATH']
            k += 2
            a = One(rs, T, place, k, 'missing' if missing else c['prog'][0], c['place'] if 1 <= c['place'] <= 3 else 0, rs.rand() < .3)
            b = One(rs, T, place, k + 1, 'missing' if missing else c['prog'][1], 0, rs.rand() < .3)
            if c['place'] == 0:
                b.run()
                a.run()
            elif c['place'] == 4 or missing:
                a.run()
                b.run()
            else:
                t = threading.Thread(target=a.run)
                t.start()
                end = time.time() + 60
                while t.is_alive() and not os.path.exists(os.path.join(place, 'at_%d' % a.key)) and time.time() < end:
                    time.sleep(.003)
                b.run()
                open(os.path.join(place, 'go_%d' % a.key), 'w').close()
                t.join()
            E += [a.event(), b.event()]
    finally:
        tempfile.tempdir = oldtmp
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(W, ignore_errors=True)
    return E


def run(ck):
    th = ck.thorough
    C = ck.model('OutsideModel', workers=8).cases()
    for f in ('shared', 'quiet'):
        ck.refuted('OutsideModel', workers=4, constants={'Flaw': '"%s"' % f})
    C.sort(key=str)
    rs = np.random.RandomState(ck.seed)
    C = C * (12 if th else 2) + [dict(prog=['missing', 'missing'], place=4, missing=True)]
    C = [C[i] for i in rs.permutation(len(C))]
    n = (len(C) + 15) // 16
    E = []
    with Pool(8, initializer=quiet) as pool:
        for part in pool.imap(histories, [(int(rs.randint(2 ** 31)), C[i:i + n], ck.work) for i in range(0, len(C), n)]):
            E += part
    ck.cov['histories of two calls'] = len(C)
    ck.cov['calls'] = {p: sum(e['prog'] == p for e in E) for p in ('works', 'old', 'fails', 'silent', 'missing')}
    ck.assumptions += ['the matching program (not installed) is represented by a stand-in that speaks its file formats as documented in spotmatch.py',
                       'the second call runs as a whole at any point of the first']
    ck.judge('OutsideTrace', E, lambda e, c: (c, {'event': e}))
