"""Shared machinery of the checks: TLC runs, case execution, trace validation, evidence.

Outcomes: exit 0 (held), exit 1 + "VIOLATION property=<id> replay=<path>", exit 2 (machinery failure).
"""
import hashlib, importlib, json, math, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('AMAT_REPO', '/repo')
NAN = -1100000000
LIM = 1000000000
LAST = 600        # seconds after which no more cases are awaited
NPROC = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)


class Machinery(Exception):
    """The check itself could not do its work (never used for a property verdict)."""


class Outside(Exception):
    """TLC cannot evaluate the specification on a recorded event: no value that the specification knows of"""


class CaseTimeout(BaseException):
    pass


# ---------------------------------------------------------------- quantisation
def q(x, scale=1.0):
    """fixed-point integer that TLC can hold; NaN and non-numbers become the sentinel NAN"""
    try:
        x = float(x)
    except Exception:
        return NAN
    if math.isnan(x):
        return NAN
    y = x * scale
    if y >= LIM:
        return LIM
    if y <= -LIM:
        return -LIM
    return int(round(y))


def res(x, scale=1.0):
    """nonnegative residual as an integer, rounded up; NaN -> -1 (fails every 0 <= r clause)"""
    try:
        x = float(x)
    except Exception:
        return -1
    if math.isnan(x):
        return -1
    y = abs(x) * scale
    return LIM if y >= LIM else int(math.ceil(y - 1e-9))


def relres(a, b, scale=1e9, floor=0.0):
    """max relative difference of two arrays (or numbers) as integer residual in units 1/scale"""
    import numpy as np
    try:
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    except Exception:
        return -1
    if a.shape != b.shape:
        return LIM
    if a.size == 0:
        return 0
    if np.isnan(a).any() or np.isnan(b).any():
        return -1
    with np.errstate(all='ignore'):
        same = (a == b)
        den = np.maximum(np.maximum(np.abs(a), np.abs(b)), floor)
        d = np.where(same, 0.0, np.abs(a - b) / np.where(den == 0, 1.0, den))
    m = np.max(d)
    return -1 if math.isnan(m) else res(m, scale)


def absres(a, b, scale=1.0):
    import numpy as np
    try:
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    except Exception:
        return -1
    if a.shape != b.shape:
        return LIM
    if a.size == 0:
        return 0
    if np.isnan(a).any() or np.isnan(b).any():
        return -1
    with np.errstate(all='ignore'):
        return res(np.max(np.where(a == b, 0.0, np.abs(a - b))), scale)


class Interner:
    """bit-exact values -> small integer tokens (equal token iff equal value)"""
    def __init__(self):
        self.d = {}

    def __call__(self, v):
        return self.d.setdefault(fingerprint(v), len(self.d))


def fingerprint(v, depth=0):
    import numpy as np
    if isinstance(v, (bool, int, str, bytes, type(None))):
        return repr(v)
    if isinstance(v, float) or (np.isscalar(v) and not isinstance(v, str)):
        f = float(v)
        return 'nan' if math.isnan(f) else ('f' + (f + 0.0 if f else 0.0).hex())
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return fingerprint(v[()])
        if v.dtype == object:
            return 'o' + hashlib.sha1(repr([fingerprint(x) for x in v.ravel()]).encode()).hexdigest()
        w = np.ascontiguousarray(v)
        if w.dtype.kind == 'f':
            w = w + 0.0
        return 'a%s%s' % (v.shape, hashlib.sha1(w.tobytes()).hexdigest())
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + '[' + ','.join(fingerprint(x, depth + 1) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (k, fingerprint(v[k], depth + 1)) for k in sorted(v, key=repr)) + '}'
    x, y = getattr(v, 'x', None), getattr(v, 'y', None)
    if x is not None and y is not None and callable(v):      # interp1d
        return 'interp(' + fingerprint(np.asarray(x)) + fingerprint(np.asarray(y)) + ')'
    if callable(v):
        return 'callable'
    return type(v).__name__


# ---------------------------------------------------------------- case execution
_FN = None


def _alarm(sig, frm):
    raise CaseTimeout()


def _run_one(args):
    i, case, tmo = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, tmo)
    t0 = time.time()
    try:
        ev = _FN(case)
    except CaseTimeout:
        ev = [dict(ev='hang', what='no result after %d s' % tmo)]
    except Machinery:
        raise
    except BaseException as e:       # noqa: any exception of the code under test is an observation
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if '/AMAT/' in f.filename] or list(tb)
        ev = [dict(ev='raise', what='%s: %s' % (type(e).__name__, str(e)[:200]),
                   where='%s:%s' % (os.path.basename(last[-1].filename), last[-1].name) if last else '?')]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return i, ev, time.time() - t0


def _run_some(jobs):
    out = []
    for j in jobs:
        out.append(_run_one(j))
        if out[-1][1] and out[-1][1][0].get('ev') == 'hang' and len(jobs) > 1 and sum(o[1][0].get('ev') == 'hang' for o in out if o[1]) >= 3:
            break
    return out


def _init():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 2)
    import warnings
    warnings.filterwarnings('ignore')


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='amat-%s-' % pid)
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.cases_replayed = 0
        self.tlc_runs = []
        self.samples = []
        self.assumptions = []
        self.viol = []            # dicts: clause, case, event
        self.known = []
        self.notes = {}

    def rng(self, *salt):
        return random.Random('%s|%s|%s' % (self.seed, self.pid, '|'.join(map(str, salt))))

    # ---- TLC
    def tlc(self, module, cfg_text, env=None, simulate=None, label=None, workers=None, heap='4g', timeout=800, extra=()):
        """run TLC on spec/<module>.tla with the given config text; returns stdout"""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg_text)
        jars = '/opt/veriftools/tla/tla2tools.jar'
        cp = [jars] + [os.path.join('/opt/veriftools/tla', x) for x in sorted(os.listdir('/opt/veriftools/tla')) if x.endswith('.jar') and x != 'tla2tools.jar']
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d, '-cp', ':'.join(cp), 'tlc2.TLC',
               '-config', 'run.cfg', '-metadir', os.path.join(d, 'meta'), '-workers', str(workers or 1), '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on ' + module)
        out = p.stdout.decode('utf8', 'replace')
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        st = int(m[-1][1]) if m else 0
        tr = int(m[-1][0]) if m else 0
        self.states += st
        self.transitions += tr
        self.tlc_runs.append(dict(module=module, label=label or '', distinct=st, generated=tr, wall_s=round(time.time() - t, 2), rc=p.returncode))
        if p.returncode != 0:
            if label == 'trace' and re.search(r'Overflow|Attempted to|The following arguments were|nonexistent field|not in the domain|evaluating the expression', out):
                raise Outside(module)
            sys.stderr.write(out[:1500] + "\n....\n" + out[-1500:])
            raise Machinery('TLC failed on %s (%s), rc=%d' % (module, label, p.returncode))
        shutil.rmtree(d, ignore_errors=True)
        return out

    def design(self, module, cfg, workers=4, **kw):
        """exhaustive check of a design specification (independent of the code)"""
        return self.tlc(module, cfg, label='design', workers=workers, **kw)

    def generate(self, module, cfg, **kw):
        """TLC writes cases (inputs and expected outcomes) as JSON to IOEnv.OUT_FILE"""
        out = os.path.join(self.work, 'gen-%d.json' % len(self.tlc_runs))
        env = dict(kw.pop('env', {}) or {})
        env['OUT_FILE'] = out
        self.tlc(module, cfg, env=env, label='generate', **kw)
        if not os.path.exists(out):
            raise Machinery('no cases generated by ' + module)
        with open(out) as f:
            return json.load(f)

    # ---- execution of cases against the real code
    def run_cases(self, fn, cases, timeout=120, procs=None):
        """fn(case) -> list of event dicts; executed in forked workers, in parallel"""
        global _FN
        _FN = fn
        outs = [None] * len(cases)
        if not cases:
            return outs
        procs = min(procs or NPROC, len(cases))
        ctx = mp.get_context('fork')
        with ctx.Pool(procs, initializer=_init, maxtasksperchild=200) as pool:
            n = max(1, min(20, len(cases) // (procs * 8)))
            jobs = [(i, c, timeout) for i, c in enumerate(cases)]
            todo = pool.imap_unordered(_run_some, [jobs[k:k + n] for k in range(0, len(jobs), n)])
            hangs = 0
            while True:
                try:
                    some = todo.next(timeout=max(1.0, LAST - (time.time() - self.t0)))
                except StopIteration:
                    break
                except mp.TimeoutError:       # out of time: judge what there is
                    self.notes['cut_short'] = 'cases not finished in time were not judged'
                    break
                for i, ev, w in some:
                    outs[i] = ev
                    hangs += any(e.get('ev') == 'hang' for e in ev)
                if hangs >= 5:                # enough to decide; the rest would only burn the time limit
                    self.notes['cut_short'] = 'stopped after %d cases that did not end' % hangs
                    break
        return [o if o is not None else [] for o in outs]

    # ---- trace validation
    def validate(self, module, cases, traces, consts='', env=None, timeout=800, chunk=4000):
        """each trace is a list of events; TLC judges them against spec/<module>.tla"""
        lines, owner = [], []
        for ci, tr in enumerate(traces):
            for k, ev in enumerate(tr):
                e = dict(ev)
                e['case'] = ci
                e['first'] = 1 if k == 0 else 0
                lines.append(e)
                owner.append(ci)
        self.traces += len(traces)
        self.events += len(lines)
        for k in (0, len(traces) // 2):
            if traces and len(self.samples) < 6:
                self.samples.append(dict(module=module, case=_jsonable(cases[k]), events=[_short(e) for e in traces[k][:3]]))
        # split at case boundaries, judge the pieces in parallel
        pieces, cur = [], []
        for i, e in enumerate(lines):
            if e['first'] and len(cur) >= chunk:
                pieces.append(cur)
                cur = []
            cur.append(e)
        if cur:
            pieces.append(cur)
        found = []
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            futs = [ex.submit(self._judge, module, p, consts, env, timeout, n) for n, p in enumerate(pieces)]
            for f in futs:
                found += f.result()
        for ev, clause in found:
            ci = ev['case']
            self.viol.append(dict(module=module, clause=clause, case=_jsonable(cases[ci]), event=_short(ev, 40)))
        return found

    def _judge(self, module, lines, consts, env, timeout, n):
        base = os.path.join(self.work, '%s-%d-%d' % (module, n, len(self.tlc_runs)))
        tf, of = base + '.ndjson', base + '.out.json'
        with open(tf, 'w') as f:
            for e in lines:
                f.write(json.dumps(e, default=_np) + '\n')
        en = dict(env or {})
        en.update(TRACE_FILE=tf, OUT_FILE=of)
        try:
            self.tlc(module, 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n' + consts, env=en, label='trace', timeout=timeout)
        except Outside:
            # a value out of the range of every design (for instance so large that its arithmetic overflows):
            # judge the halves apart, down to the single trace that cannot be judged
            firsts = [i for i, e in enumerate(lines) if e['first']]
            if len(firsts) == 1:
                return [(lines[0], 'recorded-values-within-the-specification')]
            k = firsts[len(firsts) // 2]
            a = self._judge(module, lines[:k], consts, env, timeout, n * 2 + 1000)
            return a + ([] if len(a) >= 20 else self._judge(module, lines[k:], consts, env, timeout, n * 2 + 1001))
        if not os.path.exists(of):
            raise Machinery('no verdict from ' + module)
        with open(of) as f:
            v = json.load(f)
        if v['n'] != len(lines):
            raise Machinery('verdict of %s does not cover the trace' % module)
        return [(lines[x['line'] - 1], x['clause']) for x in v['viol']]

    def violation(self, clause, case, event=None, module='replay'):
        self.viol.append(dict(module=module, clause=clause, case=_jsonable(case), event=_short(event or {}, 40)))

    # ---- verdict
    def finish(self, level='model_checking'):
        kf = load_known(self.pid)
        real, known = [], {}
        for v in self.viol:
            k = match_known(kf, v)
            if k is None:
                real.append(v)
            else:
                known.setdefault(k['id'], (k, 0))
                known[k['id']] = (k, known[k['id']][1] + 1)
        for k, n in known.values():
            print('KNOWN-FINDING: property=%s %s (%d observations)' % (self.pid, k['what'], n))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, replayed_spec_cases=self.cases_replayed, tlc_runs=self.tlc_runs,
                   samples=self.samples or [self.notes])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(real))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        if real:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%s-%d.json' % (self.pid, self.tier, self.seed))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, violations=real[:200]), f, indent=1, default=str)
            by = {}
            for v in real:
                by.setdefault(v['clause'], []).append(v)
            for c, vs in sorted(by.items()):
                print('  clause %-40s %4d x  e.g. case %s event %s' % (c, len(vs), json.dumps(vs[0]['case'], default=str)[:300], json.dumps(vs[0]['event'], default=str)[:400]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            rc = 1
        else:
            print('OK property=%s tier=%s: %d traces (%d events), %d spec cases replayed, TLC %d distinct states, %.1f s' % (
                self.pid, self.tier, self.traces, self.events, self.cases_replayed, self.states, time.time() - self.t0))
        return rc

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _np(x):
    import numpy as np
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    raise TypeError(type(x))


def _jsonable(x):
    try:
        return json.loads(json.dumps(x, default=str))
    except Exception:
        return str(x)


def _short(e, n=12):
    return {k: (v if not isinstance(v, (list, tuple)) or len(v) <= n else list(v[:n]) + ['...']) for k, v in e.items()}


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['known'] if k['property'] == pid]


def match_known(kf, v):
    for k in kf:
        if k['clause'] == v['clause']:
            return k
    return None


def setup_repo_import():
    """import AMAT from the current working tree, never from stale byte code"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = tempfile.mkdtemp(prefix='amat-pyc-')
    for m in [m for m in sys.modules if m == 'AMAT' or m.startswith('AMAT.')]:
        del sys.modules[m]
    sys.path.insert(0, REPO)
    importlib.invalidate_caches()
    import AMAT
    got = os.path.realpath(list(AMAT.__path__)[0])
    if got != os.path.realpath(os.path.join(REPO, 'AMAT')):
        raise Machinery('AMAT imported from ' + got)
