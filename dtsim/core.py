"""The simulation runner: seeds, isolation, minimisation, replay and evidence.

A *case* is a JSON value that fixes one simulated execution completely: configuration, initial
particles, schedule of operations, injected faults and the seed of the random-number seam.
A property module turns a seed into a case (generate) and runs a case against the code under
test with its oracles (execute).  execute is a pure function of the case and of the code.

Cases run in forked children ("batches"): the C++ code may abort or exit, and that must be an
observation, not the end of the check.
"""
import ctypes, hashlib, json, os, pickle, random, select, signal, struct, sys, time, traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, 'replays')
EVIDENCE = os.path.join(ROOT, 'evidence')
SCRATCH_BASE = os.path.join(ROOT, '.build', 'scratch')

CASE_TIMEOUT = 90.0       # processor seconds; a single case needs milliseconds to a few seconds
CASE_WALL = 400.0         # real seconds, for a case that waits for ever


class Violation(Exception):
    """Raised by an oracle.  kind is the violation class that minimisation preserves."""
    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind, self.msg = kind, msg


class HarnessError(Exception):
    pass


class Run:
    """What one execution leaves behind."""
    def __init__(self):
        self.faults = Counter()     # fault kind -> how often it actually fired
        self.probes = Counter()     # rare condition -> how often it was reached
        self.ops = Counter()
        self.sim_time = 0.0         # simulated seconds (ctrl.time) or steps
        self.log = hashlib.sha256()  # event log: everything observable, in order
        self.nlog = 0
        self.states = set()         # abstract states reached (hashes)
        self.shape = []             # abstract schedule (operation kinds and fault sites)
        self.trace = None           # list when tracing
        self.nontrivial = False     # set by the scenario (see its RULE)

    def event(self, *a):
        s = repr(a)
        self.log.update(s.encode())
        self.log.update(b'\n')
        self.nlog += 1
        if self.trace is not None:
            self.trace.append(s)

    def state(self, *a):
        self.states.add(hashlib.sha1(repr(a).encode()).digest()[:8])

    def op(self, kind):
        self.ops[kind] += 1
        self.shape.append(kind)

    def fault(self, kind):
        self.faults[kind] += 1
        self.shape.append('!' + kind)


def run_seed(base, prop, index):
    h = hashlib.sha256(('%s/%s/%s' % (base, prop, index)).encode()).digest()
    return int.from_bytes(h[:7], 'big')


def execute_case(mod, case, trace=False):
    """-> result dict.  Exceptions out of the code under test are violations ('raised')."""
    run = Run()
    if trace:
        run.trace = []
    viol = None
    try:
        mod.execute(case, run)
    except Violation as e:
        viol = {'kind': e.kind, 'msg': e.msg}
    except HarnessError:
        raise
    except BaseException as e:
        # A legal workload must not make the code fail; and where the code hands back something
        # the oracle cannot even read, the property does not hold either.
        tb = traceback.extract_tb(sys.exc_info()[2])
        f = ([x for x in tb if not x.filename.startswith(ROOT)] or tb)[-1]
        viol = {'kind': 'raised:' + type(e).__name__,
                'msg': '%s: %s (at %s:%s in %s)' % (type(e).__name__, str(e)[:300].replace('\n', ' '),
                                                    os.path.basename(f.filename), f.lineno, f.name)}
        if os.environ.get('DTSIM_TB'):
            viol['tb'] = traceback.format_exc()
    if viol is not None:
        run.event('VIOLATION', viol['kind'], viol['msg'])
    return {'violation': viol, 'faults': run.faults, 'probes': run.probes, 'ops': run.ops,
            'sim_time': run.sim_time, 'log': run.log.hexdigest(), 'nlog': run.nlog,
            'states': run.states, 'shape': hashlib.sha1('|'.join(run.shape).encode()).digest()[:8],
            'trace': run.trace, 'nontrivial': run.nontrivial}


# ---------------------------------------------------------------- isolation

_libc = ctypes.CDLL(None)


def _child(fd, mod, items, trace):
    """items: list of (index, case or None).  Writes pickled (tag, payload) records."""
    _libc.prctl(1, signal.SIGKILL, 0, 0, 0)      # die with the parent
    dn = os.open('/dev/null', os.O_WRONLY)
    if not os.environ.get('DTSIM_SHOW'):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    scratch = os.path.join(SCRATCH_BASE, '%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)

    def put(tag, payload):
        b = pickle.dumps((tag, payload))
        b = struct.pack('<I', len(b)) + b
        while b:
            n = os.write(fd, b)
            b = b[n:]
    try:
        for index, case in items:
            put('start', index)
            try:
                if case is None:
                    case = mod.generate_indexed(index)
                for f in os.listdir(scratch):
                    os.unlink(os.path.join(scratch, f))
                put('done', (index, execute_case(mod, case, trace)))
            except HarnessError as e:
                put('harness', (index, str(e)))
            except BaseException:
                put('harness', (index, traceback.format_exc()))
    finally:
        os._exit(0)


def _cleanup_scratch(pid):
    d = os.path.join(SCRATCH_BASE, '%d' % pid)
    try:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    except OSError:
        pass


class Batch:
    def __init__(self, mod, items, trace=False):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _child(w, mod, items, trace)
            finally:
                os._exit(1)
        os.close(w)
        self.pid, self.fd, self.items = pid, r, items
        self.buf = b''
        self.current = None
        self.results = {}
        self.harness = []
        self.last = time.time()
        self.last_cpu = 0.0
        self.slowest = 0.0
        self.dead = False
        self.status = None
        self.hung = False

    def cpu(self):
        """Processor time used so far."""
        try:
            with open('/proc/%d/stat' % self.pid) as f:
                q = f.read().rpartition(')')[2].split()
            return (int(q[11]) + int(q[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError, ValueError):
            return self.last_cpu

    def stuck(self, limit):
        return self.cpu() - self.last_cpu > limit or time.time() - self.last > CASE_WALL

    def pump(self):
        """Read what is there; returns False at end of stream."""
        b = os.read(self.fd, 1 << 16)
        if not b:
            os.close(self.fd)
            _, self.status = os.waitpid(self.pid, 0)
            _cleanup_scratch(self.pid)
            self.dead = True
            return False
        self.buf += b
        self.last = time.time()
        c = self.cpu()
        if c - self.last_cpu > self.slowest:
            self.slowest = c - self.last_cpu
            if os.environ.get('DTSIM_SLOW') and self.slowest > 2:
                print('slow', self.current, round(self.slowest, 1), flush=True)
        self.last_cpu = c
        while len(self.buf) >= 4:
            n = struct.unpack('<I', self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            tag, p = pickle.loads(self.buf[4:4 + n])
            self.buf = self.buf[4 + n:]
            if tag == 'start':
                self.current = p
            elif tag == 'done':
                self.results[p[0]] = p[1]
                self.current = None
            else:
                self.harness.append(p)
                self.current = None
        return True

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass

    def death(self):
        """Violation for a child that did not end by itself, or None."""
        if self.hung:
            return {'kind': 'hang', 'msg': 'a single run did not end'}
        if self.current is None and self.status == 0:
            return None
        if os.WIFSIGNALED(self.status):
            s = os.WTERMSIG(self.status)
            return {'kind': 'died', 'msg': 'the process was ended by signal %d (%s)' % (s, signal.Signals(s).name)}
        return {'kind': 'died', 'msg': 'the process exited with status %d in the middle of an operation'
                % os.WEXITSTATUS(self.status)}


def run_isolated(mod, cases, trace=False, timeout=CASE_TIMEOUT):
    """Run cases in one fresh child; returns the result of the last one (death included)."""
    b = Batch(mod, list(enumerate(cases)), trace)
    while True:
        rl, _, _ = select.select([b.fd], [], [], 1.0)
        if rl:
            if not b.pump():
                break
        elif b.stuck(timeout):
            b.hung = True
            b.kill()
    if b.harness:
        raise HarnessError(b.harness[0][1])
    d = b.death()
    if d is not None:
        return {'violation': d, 'faults': Counter(), 'probes': Counter(), 'ops': Counter(), 'sim_time': 0.0,
                'log': 'died', 'nlog': 0, 'states': set(), 'shape': b'', 'trace': None}
    for i in sorted(b.results):
        if b.results[i]['violation']:
            return b.results[i]
    return b.results[len(cases) - 1]


# ---------------------------------------------------------------- search

class Search:
    """Runs indices 0..n-1 of a property over a pool of workers."""
    def __init__(self, mod, n, deadline, workers=8, batch=None, keep_logs=False):
        self.mod, self.n, self.deadline, self.workers = mod, n, deadline, workers
        self.batch = batch or max(1, min(50, n // (workers * 4) or 1))
        self.next = 0
        self.faults, self.probes, self.ops = Counter(), Counter(), Counter()
        self.sim_time = 0.0
        self.states, self.shapes = set(), set()
        self.done = 0
        self.nontrivial = 0
        self.failures = []          # (index, violation, batch_prefix)
        self.logs = {} if keep_logs else None
        self.harness = []
        self.stop = False
        self.max_failures = 1
        self.truncated = False
        self.slowest = 0.0

    def take(self, r):
        self.done += 1
        self.faults.update(r['faults'])
        self.probes.update(r['probes'])
        self.ops.update(r['ops'])
        self.sim_time += r['sim_time']
        self.states |= r['states']
        if r['nontrivial']:
            self.shapes.add(r['shape'])

    def run(self, is_known):
        live = {}
        t0 = time.time()
        while True:
            while len(live) < self.workers and self.next < self.n and not self.stop:
                if time.time() > self.deadline:
                    self.truncated = True
                    self.stop = True
                    break
                hi = min(self.n, self.next + self.batch)
                b = Batch(self.mod, [(i, None) for i in range(self.next, hi)])
                self.next = hi
                live[b.fd] = b
            if not live:
                break
            rl, _, _ = select.select(list(live), [], [], 1.0)
            for fd in rl:
                b = live[fd]
                if not b.pump():
                    del live[fd]
                    self.slowest = max(self.slowest, b.slowest)
                    self.finish(b, is_known, live)
            now = time.time()
            for b in list(live.values()):
                if now - b.last > 20.0 and b.fd not in rl and b.stuck(CASE_TIMEOUT):
                    b.hung = True
                    b.kill()
            if self.stop and self.failures:
                for b in live.values():
                    b.kill()
        self.wall = time.time() - t0

    def finish(self, b, is_known, live):
        if self.stop and self.failures:
            return
        for i in sorted(b.results):
            r = b.results[i]
            self.take(r)
            if self.logs is not None:
                self.logs[i] = r['log']
            if r['violation'] and not is_known(r['violation']):
                self.failures.append((i, r['violation'], [j for j, _ in b.items if j < i]))
        self.harness += b.harness
        d = b.death()
        if d is not None and not self.harness:
            i = b.current
            if i is None:
                self.harness.append((None, 'a batch child ended abnormally between cases: %r' % (d,)))
            else:
                self.done += 1
                if self.logs is not None:
                    self.logs[i] = 'died'
                if not is_known(d):
                    self.failures.append((i, d, [j for j, _ in b.items if j < i]))
                # the rest of the batch still has to run
                rest = [(j, None) for j, _ in b.items if j > i]
                if rest and len(self.failures) < self.max_failures:
                    nb = Batch(self.mod, rest)
                    live[nb.fd] = nb
        if len(self.failures) >= self.max_failures or self.harness:
            self.stop = True


# ---------------------------------------------------------------- minimisation

def minimise(mod, case, kind, budget_s=60.0):
    """Greedy delta debugging over the reductions the property module offers."""
    t0 = time.time()
    tried = 0
    cur = case
    progress = True
    size = getattr(mod, 'size', lambda c: len(json.dumps(c)))
    while progress and time.time() - t0 < budget_s:
        progress = False
        for cand in mod.reductions(cur):
            if time.time() - t0 > budget_s:
                break
            tried += 1
            try:
                r = run_isolated(mod, [cand], timeout=30.0)
            except HarnessError:
                continue
            if r['violation'] and r['violation']['kind'] == kind:
                cur = cand
                progress = True
                break
    return cur, tried


def list_reductions(lst):
    """Sub-lists, from large cuts to single removals."""
    n = len(lst)
    c = n
    while c >= 1:
        for i in range(0, n, c):
            yield lst[:i] + lst[i + c:]
        c = c // 2


def dump_case(case):
    return json.loads(json.dumps(case))
