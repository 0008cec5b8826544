"""Verdict discipline shared by every check: seeded cases, worker pool, monitors' counters,
known findings, evidence, exit codes.

exit 0  held on everything explored
exit 1  'VIOLATION property=<id> replay=<path>' on stdout
exit 3  inconclusive (a monitor was never reached, nothing non-trivial seen, harness trouble)
"""
import os, sys, json, signal, time, random, hashlib, traceback, collections, argparse, shutil, tempfile
import concurrent.futures as cf
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


class Case:
    """What one worker observed while running one case."""

    def __init__(self, pid, idx, seed_, tier_):
        self.pid, self.idx, self.seed, self.tier = pid, idx, seed_, tier_
        self.rng = random.Random(f"{pid}:{seed_}:{idx}")
        self.violations = []      # (mechanism key, message, witness)
        self.sigs = []            # signatures of distinct non-trivial things evaluated
        self.evals = 0
        self.counters = collections.Counter()
        self.sample = None
        self.notes = []
        self.inconclusive = []

    def violate(self, key, msg, /, **witness):
        self.violations.append((key, msg, witness))

    def expect(self, ok, key, msg, /, **witness):
        self.counters['assertions'] += 1
        if not ok:
            self.violate(key, msg, **witness)
        return ok

    def saw(self, sig, n=1):
        """one non-trivial evaluation with signature sig"""
        self.evals += n
        self.sigs.append(sig if isinstance(sig, str) else json.dumps(sig, sort_keys=True, default=str))

    def count(self, name, n=1):
        self.counters[name] += n

    def result(self):
        return dict(idx=self.idx, violations=self.violations, evals=self.evals,
                    sigs=[hashlib.sha1(s.encode()).hexdigest()[:16] for s in self.sigs],
                    counters=dict(self.counters), sample=self.sample, notes=self.notes,
                    inconclusive=self.inconclusive)


class Hang(BaseException):
    pass


def _hang(sig, frame):
    raise Hang()


CASE_LIMIT = 120      # seconds; cases take a few at most


_lines = None


def _trace_lines():
    """with KV_COV=<dir>: remembers which lines of the code under test this process executes (tools/reach.py)"""
    global _lines
    if _lines is not None:
        return
    _lines = set()
    mon = sys.monitoring
    base = os.path.realpath(REPO) + os.sep

    def line(code, n):
        f = code.co_filename
        if f.startswith(base):
            _lines.add((f[len(base):], n))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, 'kv')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


_RUN = None      # (func, pid, seed, tier) inherited by forked workers


def _scratch_root():
    d = os.path.join(tempfile.gettempdir(), f"kv-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    return d


def _worker(idx):
    func, pid, sd, tr, scratch = _RUN
    if os.environ.get('KV_COV'):
        _trace_lines()
    c = Case(pid, idx, sd, tr)
    d = os.path.join(scratch, f"case{idx}")
    os.makedirs(d, exist_ok=True)
    c.dir = d
    old = os.getcwd()
    oldenv = dict(os.environ)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _hang)
    signal.alarm(CASE_LIMIT)
    try:
        os.chdir(d)
        func(c)
        signal.alarm(0)
        if os.environ.get('KV_SLOW') and time.time() - t0 > float(os.environ['KV_SLOW']):
            print(f"slow: case {idx} {time.time() - t0:.1f} s")
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc()
        fr = traceback.extract_tb(e.__traceback__)
        inner = [f for f in fr if '/lib/python' not in f.filename and '/site-packages/' not in f.filename and not f.filename.startswith('<frozen')]
        if inner and '/klayout_pex' in inner[-1].filename:
            c.violate(crash_key(e), f"the code under test raised {type(e).__name__}: {e}\n{tb[-2500:]}")
        else:
            c.inconclusive.append(f"case {idx}: harness exception {type(e).__name__}: {e}\n{tb[-3500:]}")
    except Hang as e:
        frames = traceback.extract_tb(e.__traceback__)
        where = [f for f in frames if '/klayout_pex' in f.filename]
        text = f"not finished after {CASE_LIMIT} s: {''.join(traceback.format_list(frames))[-1500:]}"
        if where:
            c.violate(f"hang:{os.path.basename(where[-1].filename)}", text)
        else:
            c.inconclusive.append(f"case {idx}: {text}")
    finally:
        signal.alarm(0)
        os.chdir(old)
        if dict(os.environ) != oldenv:
            os.environ.clear()
            os.environ.update(oldenv)
        if not os.environ.get('KV_KEEP'):
            shutil.rmtree(d, ignore_errors=True)
        if _lines:
            with open(os.path.join(os.environ['KV_COV'], f"{pid}-{os.getpid()}"), 'a') as f:
                f.writelines(f"{a}\t{b}\n" for a, b in _lines)
            _lines.clear()
    return c.result()


def load_known(pid):
    """known_findings.txt: lines 'known: property=<id> key=<mechanism> <what fails>' and
    'fixed: property=<id> <commit> <what failed>' (the latter suppress nothing)."""
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            parts = line.split(None, 3)
            d = dict(x.split('=', 1) for x in parts[1:3])
            if d.get('property') == pid:
                known[d['key']] = parts[3] if len(parts) > 3 else ''
    return known


class Check:
    def __init__(self, pid, rule, technique='', level='exploration', assumptions=(), min_evals=1,
                 required=(), workers=None):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.tier, self.seed = tier(), seed()
        self.t0 = time.time()
        self.counters = collections.Counter()
        self.sigs = set()
        self.evals = 0
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.min_evals = min_evals
        self.required = list(required)
        self.workers = workers or int(os.environ.get('KV_WORKERS', 0)) or min(8, os.cpu_count() or 1)
        self.known = load_known(pid)
        self.extra = {}
        self.ncases = 0
        self.absorbed = set()
        ap = argparse.ArgumentParser()
        ap.add_argument('--replay')
        ap.add_argument('--case', type=int)
        ap.add_argument('--n', type=int)
        a, _ = ap.parse_known_args(sys.argv[2:])
        self.only = None
        self.n_override = a.n
        if a.replay:
            r = json.load(open(a.replay))
            self.seed, self.tier, self.only = r['seed'], r['tier'], r['case']
            os.environ['VERIF_TIER'] = self.tier
            os.environ['VERIF_SEED'] = str(self.seed)
        if a.case is not None:
            self.only = a.case

    def run(self, func, quick, thorough, budget_quick=240, budget_thorough=1500, case_timeout=300, salt=0):
        """Runs cases salt..salt+n-1 through func in forked workers; stops starting new ones at the
        time budget (cases not started are simply not counted as covered)."""
        global _RUN
        n = quick if self.tier == 'quick' else thorough
        if self.n_override:
            n = self.n_override
        budget = budget_quick if self.tier == 'quick' else budget_thorough
        scratch = _scratch_root()
        _RUN = (func, self.pid, self.seed, self.tier, scratch)
        idxs = list(range(salt, salt + n))
        if self.only is not None:
            if self.only < salt:
                return
            idxs = [self.only]
        deadline = time.time() + budget
        if self.only is not None or self.workers == 1:
            for i in idxs:
                if time.time() > deadline:
                    break
                self._absorb(_worker(i))
            if not os.environ.get('KV_KEEP'):
                shutil.rmtree(scratch, ignore_errors=True)
            return
        ctx = mp.get_context('fork')
        started = set()
        try:
            with cf.ProcessPoolExecutor(self.workers, mp_context=ctx) as ex:
                pending = set()
                procs = {}
                it = iter(idxs)
                exhausted = False
                last_progress = time.time()
                while True:
                    while not exhausted and len(pending) < self.workers * 2 and time.time() < deadline:
                        try:
                            i = next(it)
                            started.add(i)
                            pending.add(ex.submit(_worker, i))
                            procs.update(ex._processes or {})
                        except StopIteration:
                            exhausted = True
                    if not pending:
                        break
                    done, pending = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
                    for f in done:
                        last_progress = time.time()
                        self._absorb(f.result())
                    if any(v[0].startswith('hang:') or os.environ.get('KV_FIRST') and v[0] not in self.known for v in self.violations):
                        exhausted = True      # (KV_FIRST: for mutation runs, the first violation is enough)
                        for f in pending:
                            f.cancel()
                        pending = set()
                    if time.time() - last_progress > case_timeout:
                        self.inconclusive.append(f"watchdog: no case finished for {case_timeout}s")
                        for p in list(ex._processes.values()):
                            p.kill()
                        break
        except cf.process.BrokenProcessPool as e:
            for p in procs.values():
                p.join(5)
            self._find_killer(sorted(started - self.absorbed), str(e), [p.exitcode for p in procs.values()])
        if not os.environ.get('KV_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)

    def _find_killer(self, suspects, why, codes):
        """a worker died: a crash signal is a crash of the code under test, in one of the cases under way. Each is run again
        in a process of its own to name it"""
        bad = sorted({-x for x in codes if x in (-11, -6, -7, -4, -8)})
        if not bad:
            self.inconclusive.append(f"a worker process died: {why} {codes}")
            return
        which = None
        for i in suspects[:40]:
            pid = os.fork()
            if pid == 0:
                try:
                    for _ in range(3):
                        _worker(i)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if os.WIFSIGNALED(st):
                which = i
                break
        self.violations.append((f"crash:signal{bad[0]}", f"a process running the code under test died of signal {bad[0]} "
                                f"in case {which if which is not None else 'one of ' + str(suspects)}", {},
                                which if which is not None else suspects[0]))

    def _absorb(self, r):
        self.absorbed.add(r['idx'])
        self.ncases += 1
        self.evals += r['evals']
        self.sigs.update(r['sigs'])
        self.counters.update(r['counters'])
        if r['sample'] is not None and len(self.samples) < 3:
            self.samples.append(r['sample'])
        for k, m, w in r['violations']:
            self.violations.append((k, m, w, r['idx']))
        self.inconclusive += r['inconclusive']

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = self.known
        new, old = [], {}
        for v in self.violations:
            (old.setdefault(v[0], []).append(v) if v[0] in known else new.append(v))
        wall = time.time() - self.t0
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.sigs), rule=self.rule,
                                samples=self.samples or ['(none)'], cases_run=self.ncases,
                                monitor_counters=dict(sorted(self.counters.items())), **self.extra),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(new))
        with open(os.path.join(EVID, f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str, ensure_ascii=False)
        for k, vs in sorted(old.items()):
            print(f"KNOWN-FINDING: property={self.pid} [{k}] {known[k]} (seen {len(vs)}x)")
        if new:
            rp = os.path.join(EVID, 'replays')
            os.makedirs(rp, exist_ok=True)
            seen = set()
            for k, m, w, idx in new:
                if k in seen:
                    continue
                seen.add(k)
                path = os.path.join(rp, f"{self.pid}-{hashlib.sha1(k.encode()).hexdigest()[:8]}.json")
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, case=idx, key=k, message=m,
                               witness=w), open(path, 'w'), indent=1, default=str, ensure_ascii=False)
                print(f"VIOLATION property={self.pid} replay={path}")
                print(f"  [{k}] case {idx}: {str(m)[:1500]}")
            print(f"{self.pid}: VIOLATED ({len(new)} violating observations, {self.evals} evaluations, {wall:.1f}s)")
            sys.stdout.flush()
            os._exit(1)
        if self.only is None:
            for r in self.required:
                if not self.counters.get(r):
                    self.inconclusive.append(f"deciding monitor '{r}' was never reached")
            if self.evals < self.min_evals or len(self.sigs) == 0:
                self.inconclusive.append(f"only {self.evals} evaluations")
        if self.inconclusive:
            print(f"{self.pid}: INCONCLUSIVE")
            for s in self.inconclusive[:5]:
                print("  " + s)
            sys.stdout.flush()
            os._exit(3)
        print(f"{self.pid}: held on {self.evals} evaluations ({len(self.sigs)} distinct non-trivial, "
              f"{self.ncases} cases, seed {self.seed}, {self.tier}, {wall:.1f}s)")
        print("  observed: " + ", ".join(f"{k}={v}" for k, v in sorted(self.counters.items())))
        sys.stdout.flush()
        os._exit(0)


def crash_key(e):
    """A stable mechanism key for an exception raised inside the code under test."""
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/klayout_pex' in f.filename]
    where = f"{os.path.basename(fr[-1].filename)}" if fr else 'external'
    return f"crash:{type(e).__name__}:{where}"


def close(a, b, rel=1e-9, abs_=1e-12):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
