"""C12: results depend on arguments only (spec/CallHistory.tla, CallTrace.tla)."""
import contextlib, hashlib, io, json, math, os, sys, zlib
import numpy as np
from multiprocessing import Pool
import callcat as cat

S = 1e9


def quiet():
    import c23_spots
    c23_spots.quiet()


# ------------------------------------------------------------------ digests
def digest(o, h=None, depth=0):
    """of every bit of an argument"""
    top = h is None
    h = hashlib.sha1() if top else h
    from astropy.table import Table, Row, Column
    if isinstance(o, Table):
        h.update(b'T' + repr(o.colnames).encode())
        for c in o.colnames:
            digest(np.ma.array(o[c]) if hasattr(o[c], 'mask') else np.asarray(o[c]), h, depth + 1)
    elif isinstance(o, np.ma.MaskedArray):
        h.update(b'M')
        digest(np.ma.getmaskarray(o), h, depth + 1)
        digest(np.ma.getdata(o), h, depth + 1)
    elif isinstance(o, np.ndarray):
        h.update(('A%s%s' % (o.dtype, o.shape)).encode())
        h.update(repr(o.tolist()).encode() if o.dtype == object else np.ascontiguousarray(o).tobytes())
    elif isinstance(o, dict):
        h.update(b'D')
        for k in o:
            h.update(repr(k).encode())
            digest(o[k], h, depth + 1)
    elif isinstance(o, (list, tuple)):
        h.update(('L%d%s' % (len(o), type(o).__name__)).encode())
        for v in o:
            digest(v, h, depth + 1)
    elif hasattr(o, '__dict__') and not callable(o) and depth < 4:
        digest(vars(o), h, depth + 1)
    elif callable(o):
        h.update(b'F')
    else:
        h.update(repr(o).encode())
    return h.hexdigest() if top else None


def kept(o, changes):
    """the argument without the columns the call is there to change"""
    from astropy.table import Table
    if isinstance(o, Table):
        o = o.copy()
        o.remove_columns([c for c in changes if c in o.colnames])
    return o


# ------------------------------------------------------------------ results
class Show:
    def __init__(self):
        self.form, self.vals = [], []

    def nums(self, a):
        a = np.asarray(a, float).ravel()
        fin = np.isfinite(a)
        m = float(np.max(np.abs(a[fin]), initial=0.))
        e = max(-10, math.frexp(m * 1.0001)[1]) if m > 0 else -10
        self.form.append('e%d' % e)
        u = math.ldexp(1., e)
        k = np.unique(np.linspace(0, len(a) - 1, 40).round().astype(int)) if len(a) > 40 else np.arange(len(a))
        for v in a[k]:
            self.vals.append(int(round(v / u * S)) if math.isfinite(v) else 2000000000 if math.isnan(v) else 2000000001)
        if len(a) > 40:
            w = np.cos(np.arange(len(a)))
            self.vals.append(int(round(float(np.sum(np.where(fin, a, 0) * w)) / u / len(a) * S)))
            self.form.append('f%d' % int(np.sum(fin)))

    def add(self, o, depth=0):
        from astropy.table import Table, Row
        if isinstance(o, Table):
            self.form.append('T[%s]' % ','.join(o.colnames))
            for c in o.colnames:
                self.add(np.ma.array(o[c]) if hasattr(o[c], 'mask') else np.asarray(o[c]), depth + 1)
        elif isinstance(o, np.ma.MaskedArray):
            self.form.append('M')
            m = np.ma.getmaskarray(o)
            self.add(m, depth + 1)
            d = np.array(np.ma.getdata(o))
            if d.dtype.kind in 'fiu':
                d = d.astype(float)
                d[m] = 0
            self.add(d, depth + 1)
        elif isinstance(o, np.ndarray):
            self.form.append('A%s%s' % (o.dtype.kind, o.shape))
            if o.dtype.names:
                for k in o.dtype.names:
                    self.add(o[k], depth + 1)
            elif o.dtype.kind in 'fiub':
                self.nums(o)
            elif o.dtype.kind == 'c':
                self.nums(o.real)
                self.nums(o.imag)
            else:
                self.form.append('%08x' % zlib.crc32(repr(o.tolist()).encode()))
        elif isinstance(o, dict):
            self.form.append('D')
            for k in sorted(o, key=repr):
                self.form.append(repr(k))
                self.add(o[k], depth + 1)
        elif isinstance(o, (list, tuple)):
            if len(o) > 3 and all(isinstance(v, (int, float, np.floating, np.integer)) for v in o):
                self.form.append('L%d' % len(o))
                self.nums(o)
            else:
                self.form.append('L%d' % len(o))
                for v in o:
                    self.add(v, depth + 1)
        elif isinstance(o, (bool, np.bool_)) or o is None:
            self.form.append(repr(bool(o)) if o is not None else '-')
        elif isinstance(o, (int, float, np.floating, np.integer)):
            self.nums([o])
        elif isinstance(o, str):
            self.form.append('s%08x' % zlib.crc32(o.encode()))
        elif isinstance(o, set):
            self.add(sorted(o), depth + 1)
        elif hasattr(o, '__dict__') and depth < 5 and not callable(o):
            self.form.append(type(o).__name__)
            self.add(vars(o), depth + 1)
        else:
            self.form.append(type(o).__name__)


def overwrite(o, depth=0):
    """what a caller may do to what is his"""
    from astropy.table import Table
    if isinstance(o, Table):
        for c in o.colnames:
            overwrite(o[c], depth + 1)
    elif isinstance(o, np.ndarray):
        if o.flags.writeable:
            k = o.dtype.kind
            if k in 'fc':
                o[...] = -77.25
            elif k in 'iu':
                o[...] = 77
            elif k == 'b':
                np.logical_not(o, out=o)
            elif k in 'US':
                o[...] = 'zz'
            elif o.dtype.names:
                for n in o.dtype.names:
                    overwrite(o[n], depth + 1)
    elif isinstance(o, dict):
        for k in list(o):
            if isinstance(o[k], (int, float, str, bool)):
                o[k] = -77
            else:
                overwrite(o[k], depth + 1)
    elif isinstance(o, list):
        for i, v in enumerate(o):
            if isinstance(v, (int, float, str, bool)):
                o[i] = -77
            else:
                overwrite(v, depth + 1)
    elif isinstance(o, tuple):
        for v in o:
            overwrite(v, depth + 1)
    elif hasattr(o, '__dict__') and depth < 4 and not callable(o):
        for k, v in vars(o).items():
            overwrite(v, depth + 1) if not isinstance(v, (int, float, str, bool, type(None))) else setattr(o, k, -77)


def surroundings():
    return repr((sorted(os.environ.items()), os.getcwd(), sorted(np.geterr().items()), sys.getrecursionlimit(), len(sys.path)))


class Caller:
    """one process"""

    def __init__(self, seed, work):
        self.seed, self.work = seed, work
        os.makedirs(work, exist_ok=True)
        os.chdir(work)
        import desimeter.log
        desimeter.log.get_logger().setLevel('CRITICAL')
        np.seterr(all='ignore')
        self.got = self.args = None

    def call(self, name, a, ref, maker=None):
        fam, mk, tol = cat.CAT[name] if maker is None else (None, maker, 0)
        rs = np.random.default_rng([self.seed, a % 100, zlib.crc32(name.encode())])
        cat.NEAR = np.random.default_rng([self.seed, a, 3]) if a > 100 else None
        try:
            made = mk(rs, self.work)
            if a > 100:
                cat.nearby(made[1], made[2], cat.NEAR)
        except Exception as x:          # makers call the library too
            return {'op': 'call', 'key': '%s/%d' % (name, a), 'ref': ref, 'tol': 0, 'form': 'cannot be prepared: ' + repr(x)[:200], 'val': [], 'intact': True, 'world': True}
        f, args, kw = made[:3]
        may = made[3] if len(made) > 3 else {}
        obj = getattr(f, '__self__', None)
        # who only answers does not change
        own = lambda: [digest(vars(obj))] if hasattr(obj, '__dict__') and not f.__name__.startswith(('fit', 'read', 'compute')) else []
        see = lambda: [digest(kept(v, may.get(i, []))) for i, v in enumerate(args)] + [digest(kw)] + own()
        before, world = see(), surroundings()
        np.random.seed(5)
        e = {'op': 'call', 'key': '%s/%d' % (name, a), 'ref': ref, 'tol': tol}
        s = Show()
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                r = f(*args, **kw)
            if may:
                r = (r, args)
            s.add(r)
            if maker is None:
                self.got, self.args = r, (args, kw)
        except (Exception, SystemExit) as x:
            s = Show()
            s.form = ['raises ' + type(x).__name__]
        e['form'], e['val'] = ' '.join(s.form)[:4000], s.vals
        e['intact'], e['world'] = see() == before, surroundings() == world
        return e


def script(job):
    """the calls of one process"""
    n, seed, work, steps, ref = job
    c = Caller(seed, os.path.join(work, 'p%d' % n))
    out = []
    for s in steps:
        if s[0] == 'call':
            out.append(c.call(s[1], s[2], ref))
        elif s[0] == 'fail':
            out.append(c.call('!' + s[1].__name__, s[2], ref, s[1]))
        elif s[0] == 'result' and c.got is not None:
            overwrite(c.got)
        elif s[0] == 'argument' and c.args is not None:
            overwrite(c.args)
    os.chdir('/')
    import shutil
    shutil.rmtree(os.path.join(work, 'p%d' % n), ignore_errors=True)
    return out


def preload():
    import importlib, pkgutil
    import astropy.table, astropy.io.fits, astropy.io.ascii, scipy.optimize, scipy.spatial, scipy.interpolate, yaml, fitsio
    import desimeter
    for m in pkgutil.walk_packages(desimeter.__path__, 'desimeter.'):
        if '.test' not in m.name and 'raytrace.' not in m.name and 'plot' not in m.name:
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass


def run(ck):
    rng, th = ck.rng, ck.thorough
    H = ck.model('CallHistory', workers=8, constants={'MaxLen': 5} if th else None).cases()
    shows = {}
    for f in ('first', 'family', 'alias', 'hold', 'half', 'input'):
        ck.refuted('CallHistory', workers=2, constants={'Flaw': '"%s"' % f})
        shows[f] = [c['h'] for c in ck.model('CallHistory', cfg='CallFlaw', workers=4, constants={'Flaw': '"%s"' % f}).cases()]
    ck.cov['histories that show a flaw'] = {f: len(v) for f, v in shows.items()}
    H = [h['h'] for h in H]
    # histories of interest end in a call
    H = [h for h in H if h[-1]['op'] == 'call' and len({x['f'] for x in h if x['f']}) >= 1]
    fams = {}
    for n, (fam, mk, tol) in cat.CAT.items():
        fams.setdefault(fam, []).append(n)
    fails = [(fam, b) for fam in cat.BAD for b in cat.BAD[fam]]
    nargs = 8 if th else 4
    every = list(range(1, nargs + 1)) + list(range(101, nargs + 101))
    jobs = [[('call', n, a)] for n in cat.CAT for a in every] + [[('fail', b, a)] for _, b in fails for a in range(1, 3)]
    refs = len(jobs)

    def realize(h, f1, f2, bads, args):
        st = []
        for x in h:
            if x['op'] == 'call':
                st.append(('call', (f1, f2)[x['f'] - 1], args[x['f'] - 1][x['a'] - 1]))
            elif x['op'] == 'fail':
                if bads:
                    st.append(('fail', rng.choice(bads), rng.choice([1, 2])))
            else:
                st.append((x['op'],))
        return st
    names = sorted(cat.CAT)
    for f in names:
        fam = cat.CAT[f][0]
        # what may be shown by one argument only (an option), is tried with each
        plan = [([rng.choice([h for h in shows[k] if len(h) == min(map(len, shows[k]))])], a) for k in ('alias', 'hold', 'first') for a in range(1, nargs + 1)]
        plan += [([rng.choice(shows[k])], None) for k in shows for _ in range(4 if th else 1)] + [(rng.sample(H, 3), None) for _ in range(12 if th else 2)]
        for hs, first in plan:
            g = rng.choice(fams[fam]) if rng.random() < .75 else rng.choice(names)
            bads = cat.BAD.get(fam, [])
            a = [rng.sample(range(1, nargs + 1), 2) for _ in 'ab']
            if first is not None:
                k = next(x['a'] for x in hs[0] if x['f'] == 1 and x['op'] == 'call') - 1 if any(x['f'] == 1 and x['op'] == 'call' for x in hs[0]) else 0
                a[0] = [first, first % nargs + 1] if k == 0 else [first % nargs + 1, first]
            for v in a:
                if rng.random() < .5:           # a call like the one before
                    v[1] = v[0] + 100
            st = []
            for h in hs:
                st += realize(h, *((f, g) if len(hs) == 1 or rng.random() < .5 else (g, f)), bads, a)
            jobs.append(st + [('call', f, rng.choice(a[0]))])
    jobs = [(i, ck.seed, ck.work, s, i < refs) for i, s in enumerate(jobs)]
    # what a process has imported is not history; what it has called is
    preload()
    with Pool(8, initializer=quiet, maxtasksperchild=1) as pool:
        R = list(pool.imap(script, jobs, chunksize=1))
    ref = {e['key']: e for r in R[:refs] for e in r}
    runs = []
    for i in range(refs, len(R)):
        keys = sorted({e['key'] for e in R[i]})
        # a run: the references of what the process calls, then its calls
        runs.append([{'op': 'start', 'job': i}] + [ref[k] for k in keys] + R[i])
    used = {e['key'] for r in R[refs:] for e in r}
    runs.append([{'op': 'start', 'job': -1}] + [e for k, e in sorted(ref.items()) if k not in used])
    ck.cov['calls'] = {'functions': len(names), 'ways to fail': len(fails), 'calls in histories': sum(len(r) for r in R[refs:]), 'processes': len(jobs)}
    out = {}
    for k, e in ref.items():
        out.setdefault(k.rsplit('/', 1)[0], []).append(e['form'].startswith(('raises', 'cannot')))
    ck.cov['never answered'] = sorted(k for k, v in out.items() if all(v) and k[0] != '!')
    ck.cov['never failed'] = sorted(k for k, v in out.items() if not any(v) and k[0] == '!')
    ck.sample({'history': H[0], 'calls': [e['key'] for e in R[refs]]})

    def desc(e, c, r):
        return '%s %s' % (e['key'].rsplit('/', 1)[0], c), {'call': e['key'], 'form': e['form'][:300], 'val': e['val'][:12], 'expected': ref.get(e['key'], {}).get('val', [])[:12],
                                         'expected form': ref.get(e['key'], {}).get('form', '')[:300], 'before': [x['key'] for x in r if x.get('op') == 'call' and not x['ref']][:12]}
    ck.judge_runs('CallTrace', runs, desc, per_chunk=600)
