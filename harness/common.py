"""Shared machinery of the checks: running TLC on the specifications in
/verif/spec, projecting observations of the real code to integers, validating
recorded traces against a specification, and reporting.

Every check has the same shape:
  model     TLC explores a specification exhaustively (its invariants are the
            property) and prints the behaviours / cases to replay as JSON;
  replay    the behaviours are executed against the real code in /repo, one
            event is recorded per call, with the observable result;
  validate  TLC reads the recorded events and says, for each, which clauses of
            the specification it breaks (a total verdict: never an error exit).
"""
import uuid, json, os, re, shutil, subprocess, sys, tempfile, time, math, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
BIN = os.path.join(REPO, 'bin')
PY = '/opt/venv/bin/python'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.out = ''
        self.tagged = {}

    def cases(self, tag='CASE'):
        """distinct JSON records printed by the specification, in a
        deterministic order (TLC workers may interleave)"""
        return self.tagged.get(tag, [])


def run_tlc(module, cfg=None, env=None, workers=1, simulate=None, depth=None,
            seed=None, heap='3g', timeout=800, expect_error=False, work=None,
            constants=None, extra=None):
    """Run TLC on spec/<module>.tla. Raises MachineryError unless TLC ends
    without an error."""
    tmp = tempfile.mkdtemp(prefix='tlc_', dir=work)
    try:
        cfgpath = os.path.join(SPEC, (cfg or module) + '.cfg')
        if constants:
            txt = open(cfgpath).read()
            for k in constants:   # overrides
                txt = re.sub(r'(?m)^\s*%s\s*=.*\n' % re.escape(k), '', txt)
            txt += '\nCONSTANTS\n' + '\n'.join(
                '  %s = %s' % kv for kv in constants.items()) + '\n'
            cfgpath = os.path.join(tmp, 'gen.cfg')
            with open(cfgpath, 'w') as f:
                f.write(txt)
        cmd = ['java', '-Xss64m', '-Xmx' + heap,
               '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
               '-Djava.io.tmpdir=' + tmp,
               '-cp', CP, 'tlc2.TLC', '-config', cfgpath, '-metadir',
               os.path.join(tmp, 'meta'), '-workers', str(workers),
               '-noGenerateSpecTE', '-checkpoint', '0']
        if workers == 1 and not simulate:
            pass
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate]
            if depth:
                cmd += ['-depth', str(depth)]
            cmd += ['-seed', str(seed or 1)]
        if extra:
            cmd += extra
        cmd += [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
        out = p.stdout
        r = TLCResult()
        r.out = out
        r.rc = p.returncode
        m = re.findall(r'(\d+) states generated(?:.*?(\d+) distinct states)?', out.replace(',', ''))
        if m:
            r.states = int(m[-1][0])
            r.distinct = int(m[-1][1] or 0)
        m = re.findall(r'The number of states generated: (\d+)', out.replace(',', ''))
        if m:
            r.states = r.distinct = int(m[-1])
        seen = {}
        for line in out.splitlines():
            if line.startswith('"@@'):
                line = json.loads(line)
            if line.startswith('@@'):
                tag, _, body = line[2:].partition(' ')
                seen.setdefault(tag, set()).add(body)
        for tag, bodies in seen.items():
            r.tagged[tag] = [json.loads(b) for b in sorted(bodies)]
        bad = p.returncode != 0 or ('Error:' in out)
        if bad and not expect_error:
            lines = [l[:300] for l in out.splitlines() if not l.startswith(('"@@', '@@'))]
            raise MachineryError('TLC failed on %s (rc %d):\n%s' % (module, p.returncode,
                                                                    '\n'.join(lines[-60:])))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def q(x, scale):
    """project a real observation onto the integers of the specification;
    non-finite or huge values become an out-of-range integer that satisfies no
    clause. TLC integers are 32 bit."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return 2000000001
    if math.isnan(x):
        return 2000000000
    v = x * scale
    if abs(v) > 1.9e9:
        return 1900000001 if v > 0 else -1900000001
    return int(round(v))


def plain(o):
    """a recorded event as TLC can read it: 32 bit integers, no floats; what does not
    fit becomes a value that no clause accepts"""
    import numpy as np
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if isinstance(o, np.ndarray):
        return plain(o.tolist())
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        o = int(o)
        return o if abs(o) < 2 ** 31 else 1900000001 if o > 0 else -1900000001
    if isinstance(o, (float, np.floating)):
        o = float(o)
        return 2000000000 if math.isnan(o) else plain(int(o)) if math.isfinite(o) and o == int(o) else 2000000002
    if o is None or isinstance(o, str):
        return o
    return str(o)


def line(e):
    try:
        t = json.dumps(e, allow_nan=False)
        if '.' not in t and not re.search(r'\d{10}', t):
            return t
    except (TypeError, ValueError):
        pass
    return json.dumps(plain(e))


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.violations = []   # (key, detail)
        self.work = tempfile.mkdtemp(prefix='vp_%s_' % pid)

    # ----- specification side
    def model(self, module, **kw):
        r = run_tlc(module, work=self.work, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.cov.setdefault('models', []).append(
            {'module': module, 'cfg': kw.get('cfg') or module,
             'distinct_states': r.distinct, 'states_generated': r.states})
        return r

    def refuted(self, module, **kw):
        """the specification with a named flaw switched on must break one of
        its invariants: shows that the invariants are not vacuous"""
        r = run_tlc(module, work=self.work, expect_error=True, **kw)
        m = re.search(r'Invariant (\w+) is violated|Assumption (line \d+)|property (\w+) is violated|properties were violated', r.out)
        if not m:
            raise MachineryError('%s %r: no invariant broken\n%s' % (module, kw.get('constants'), r.out[-1500:]))
        self.transitions += r.states
        self.cov.setdefault('flaws refuted', []).append({'module': module, 'with': kw.get('constants'), 'breaks': m.group(0)})

    # ----- conformance side
    def validate(self, module, events, cfg=None, chunk=4000, env=None, stateful=False, count_as=None):
        """Have TLC decide, for each recorded event, which clauses it breaks.
        Returns [(index, [clauses])]."""
        events = list(events)
        if not events:
            raise MachineryError('no events to validate for %s' % module)
        n = len(events)
        if stateful or n <= chunk:
            spans = [(0, n)]
        else:
            k = -(-n // chunk)
            step = -(-n // k)
            spans = [(i, min(n, i + step)) for i in range(0, n, step)]
        procs = []
        from concurrent.futures import ThreadPoolExecutor

        def one(span):
            a, b = span
            found = []
            r = self.consume(module, events[a:b], lambda i, c: found.append((a + i, c)), lambda i: i + 1, cfg, env)
            return r, found
        bad = []
        with ThreadPoolExecutor(max_workers=6) as ex:
            for r, found in ex.map(one, spans):
                self.transitions += r[0]
                self.states += r[1]
                bad += found
        self.events += n
        self.traces += 1 if stateful else (count_as if count_as is not None else n)
        bad.sort()
        return bad

    def consume(self, module, events, bad, resume, cfg, env):
        """let TLC consume the events.  An event with values on which the specification is not
        even defined (numbers beyond all bounds, kinds that cannot be compared) stops TLC: it is
        reported with the clause undefined-values, and TLC goes on at resume(its index)."""
        states = distinct = base = stops = 0
        while base < len(events):
            path = os.path.join(self.work, '%s_%s.ndjson' % (module, uuid.uuid4().hex[:10]))
            with open(path, 'w') as f:
                for ev in events[base:]:
                    f.write(line(ev) + '\n')
            e = {'TRACE': path}
            e.update(env or {})
            r = run_tlc(module, cfg=cfg, env=e, work=self.work, expect_error=True)
            os.unlink(path)
            states += r.states
            distinct += r.distinct
            for rec in r.cases('BAD'):
                bad(base + rec['i'] - 1, sorted(rec['c']))
            if r.rc == 0 and 'Error:' not in r.out and r.cases('END') == [len(events) - base]:
                break
            # the initial state and one state per event consumed
            m = re.search(r'(\d+) states generated', r.out.replace(',', ''))
            k = int(m.group(1)) - 1 if m else -1
            if k < 0 or base + k >= len(events) or not re.search(r'Error: .*(evaluat|overflow|Attempted|exception|Java)', r.out, re.S):
                raise MachineryError('%s did not consume its trace\n%s' % (module, '\n'.join(x[:300] for x in r.out.splitlines()[-60:])))
            bad(base + k, ['undefined-values'])
            base = resume(base + k)
            stops += 1
            if stops >= 4:
                break
        return states, distinct

    def violate(self, key, detail):
        self.violations.append((key, detail))

    def judge(self, module, events, describe, **kw):
        """validate and turn every broken clause into a violation;
        describe(event, clause) -> (key, detail)"""
        bad = self.validate(module, events, **kw)
        for i, clauses in bad:
            for c in clauses:
                key, detail = describe(events[i], c)
                self.violate(key, detail)
        return bad

    def judge_runs(self, module, runs, describe, per_chunk=6000, cfg=None, env=None, max_report=400):
        """validate recorded runs (lists of events opening with op 'start')
        against a specification with state; describe(event, clause, run)"""
        runs = [r for r in runs if r]
        if not runs:
            raise MachineryError('no runs for %s' % module)
        groups, cur, n = [], [], 0
        for r in runs:
            assert r[0]['op'] == 'start'
            if cur and n + len(r) > per_chunk:
                groups.append(cur)
                cur, n = [], 0
            cur.append(r)
            n += len(r)
        groups.append(cur)
        from concurrent.futures import ThreadPoolExecutor

        def one(gi):
            flat = [(ri, e) for ri, r in enumerate(groups[gi]) for e in r]
            out = []

            def next_run(i):
                return next((j for j in range(i + 1, len(flat)) if flat[j][0] != flat[i][0]), len(flat))
            res = self.consume(module, [e for _, e in flat], lambda i, c: out.append((i, flat[i][0], flat[i][1], c)), next_run, cfg, env)
            out.sort(key=lambda t: t[0])
            return gi, res, out
        nbad = 0
        with ThreadPoolExecutor(max_workers=6) as ex:
            for gi, res, out in ex.map(one, range(len(groups))):
                self.transitions += res[0]
                self.states += res[1]
                for _, ri, e, clauses in out:
                    for c in clauses:
                        nbad += 1
                        if nbad <= max_report:
                            self.violate(*describe(e, c, groups[gi][ri]))
        self.traces += len(runs)
        self.events += sum(len(r) for r in runs)
        return nbad

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        known = load_known(self.pid)
        fresh = {}
        hit = {}
        for key, detail in self.violations:
            if key in known:
                hit.setdefault(key, detail)
            else:
                fresh.setdefault(key, detail)
        for key in sorted(hit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[key]))
        outdir = os.path.join(VERIF, 'out')
        os.makedirs(outdir, exist_ok=True)
        for n in range(8):
            if os.path.exists(os.path.join(outdir, '%s-%d.json' % (self.pid, n))):
                os.unlink(os.path.join(outdir, '%s-%d.json' % (self.pid, n)))
        rc = 0
        for n, key in enumerate(sorted(fresh)):
            if n >= 8:
                print('... %d further distinct violations' % (len(fresh) - n))
                break
            path = os.path.join(outdir, '%s-%d.json' % (self.pid, n))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': key, 'detail': fresh[key],
                           'seed': self.seed, 'tier': self.tier}, f, indent=1, default=str)
            print('  %s: %s' % (key, json.dumps(fresh[key], default=str)[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            rc = 1
        cov = dict(self.cov)
        cov['states'] = self.states
        cov['transitions'] = self.transitions
        cov['traces_validated_against_impl'] = self.traces
        cov['events_validated'] = self.events
        cov['samples'] = self.samples or ['(none)']
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
              'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(fresh)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s: %s; %d distinct states, %d transitions, %d traces / %d events validated, %.1f s'
              % (self.pid, 'VIOLATED' if rc else 'held', self.states, self.transitions,
                 self.traces, self.events, time.time() - self.t0))
        return rc


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def run_bin(script, args, cwd, env=None, stdin=None, timeout=300, extra_path=None):
    """run a script of /repo/bin in a scratch directory"""
    e = dict(os.environ)
    pp = [REPO + '/py']
    if extra_path:
        pp = list(extra_path) + pp
    e['PYTHONPATH'] = os.pathsep.join(pp)
    if env:
        e.update(env)
    p = subprocess.run([PY, os.path.join(BIN, script)] + [str(a) for a in args], cwd=cwd, env=e,
                       input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def metrology():
    """the metrology table as it is in its file (not as desimeter loads it)"""
    from astropy.table import Table
    d = os.environ.get('DESIMETER_DATA', os.path.join(REPO, 'py/desimeter/data'))
    return Table.read(os.path.join(d, 'fp-metrology.csv'))
