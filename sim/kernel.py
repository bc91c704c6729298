"""Deterministic simulation kernel (runs on Jython 2.7).

Everything that the code in /repo can observe as nondeterministic goes through
this file: which caller thread runs at which statement, asynchronous
exceptions, the message network between the simulated nodes, the entropy
source, the clock, the block-cipher device and node crashes.

* The repository's modules are compiled from the current working tree with a
  `sim point` in front of every statement of every function (and between the
  evaluation and the store/return of a statement).  The source on disk is not
  touched and no hook is needed in /repo.
* One caller thread runs at a time; it is parked and another one released only
  where the plan of the run says so.
* A run is a pure function of (plan, code).  The plan is plain JSON; it is what
  the replay file contains.
"""
import sys
import os
import ast
import imp
import heapq
import types
import random
import hashlib
import time as _real_time

from java.lang import Thread, Runnable, Throwable, System
from java.util.concurrent import Semaphore

REPO = os.environ.get('SIM_REPO', '/repo')
PKG = 'cryptopy'
HERE = os.path.dirname(os.path.abspath(__file__))

_real_urandom = os.urandom
now_ns = System.nanoTime


class Violation(BaseException):
    """A property does not hold in this run."""
    def __init__(self, kind, key, detail):
        BaseException.__init__(self, kind)
        self.kind = kind
        self.key = key
        self.detail = detail


class HarnessError(BaseException):
    """The simulator, not the code under test, is at fault."""


class StepBudget(BaseException):
    """An operation used more steps than any legitimate execution may."""


# --------------------------------------------------------------------------
# loading the tree, instrumented
# --------------------------------------------------------------------------
STUBS = {}
LOCS = []           # sim point id -> (file, function, line)
# Clean-up code is not aborted: Python 2 does not let a signal strike between
# `lock.acquire()` and a following `try:`, and no program survives one in the
# middle of `finally: lock.release()`.  An abort due there comes right after.
SHIELD = set()      # sim points before `try`
CLEANUP = {}        # path -> lines of `finally` blocks and of handlers that raise again


class _Instr(ast.NodeTransformer):
    def __init__(self, fname, path):
        self.fname = fname
        self.path = path
        self.stack = []

    def cleanup(self, stmts):
        lines = CLEANUP.setdefault(self.path, set())
        for st in stmts:
            for node in ast.walk(st):
                if hasattr(node, 'lineno'):
                    lines.add(node.lineno)

    def loc(self, node):
        LOCS.append((self.fname, '.'.join(self.stack) or '<module>', getattr(node, 'lineno', 0)))
        return len(LOCS) - 1

    def _call(self, name, node, extra=None):
        args = [ast.Num(self.loc(node))]
        if extra is not None:
            args.append(extra)
        return ast.copy_location(
            ast.Call(func=ast.Name(name, ast.Load()), args=args, keywords=[],
                     starargs=None, kwargs=None), node)

    def body(self, stmts, fn_top=False):
        out = []
        for i, st in enumerate(stmts):
            doc = (isinstance(st, ast.Expr) and isinstance(st.value, ast.Str))
            if not isinstance(st, ast.Global) and not doc:
                out.append(ast.copy_location(ast.Expr(self._call('__sp__', st)), st))
                if isinstance(st, (ast.TryFinally, ast.TryExcept)):
                    SHIELD.add(len(LOCS) - 1)
            if isinstance(st, ast.TryFinally):
                self.cleanup(st.finalbody)
            elif isinstance(st, ast.TryExcept):
                for h in st.handlers:
                    if any(isinstance(x, ast.Raise) and x.type is None for x in h.body):
                        self.cleanup(h.body)
            if isinstance(st, ast.AugAssign):
                st.value = self._call('__spv__', st.value, st.value)
            elif isinstance(st, ast.Assign):
                if any(not isinstance(t, ast.Name) for t in st.targets):
                    st.value = self._call('__spv__', st.value, st.value)
            elif isinstance(st, ast.Return):
                if st.value is not None and not isinstance(st.value, (ast.Name, ast.Num, ast.Str)):
                    st.value = self._call('__spv__', st.value, st.value)
            self.visit_stmt(st)
            out.append(st)
        return out

    def visit_stmt(self, st):
        if isinstance(st, ast.FunctionDef):
            self.stack.append(st.name)
            st.body = self.body(st.body, True)
            self.stack.pop()
            return
        if isinstance(st, ast.ClassDef):
            self.klass(st)
            return
        for field in ('body', 'orelse', 'finalbody'):
            v = getattr(st, field, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(st, field, self.body(v))
        for h in getattr(st, 'handlers', None) or []:
            h.body = self.body(h.body)

    def klass(self, node):
        self.stack.append(node.name)
        self.scope(node.body)
        self.stack.pop()

    def scope(self, stmts):
        """module or class level: only function bodies get sim points"""
        for st in stmts:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.visit_stmt(st)
            else:
                for field in ('body', 'orelse', 'finalbody'):
                    v = getattr(st, field, None)
                    if isinstance(v, list):
                        self.scope(v)
                for h in getattr(st, 'handlers', None) or []:
                    self.scope(h.body)


_code = {}
TREE = {'finalizers': False, 'files': 0}


def _compile(path):
    if path not in _code:
        f = open(path, 'rb')
        try:
            src = f.read()
        finally:
            f.close()
        src = src.replace('\r\n', '\n')
        if not src.endswith('\n'):
            src += '\n'
        tree = ast.parse(src, path)
        ins = _Instr(os.path.relpath(path, REPO), path)
        ins.scope(tree.body)
        ast.fix_missing_locations(tree)
        _code[path] = compile(tree, path, 'exec', 0, 1)
        TREE['files'] += 1
    return _code[path]


def _scan_finalizers():
    for d, dirs, files in os.walk(REPO):
        if '.git' in dirs:
            dirs.remove('.git')
        if os.path.basename(d) == 'test':
            continue
        for f in files:
            if f.endswith('.py'):
                s = open(os.path.join(d, f), 'rb').read()
                if '__del__' in s or 'weakref' in s:
                    TREE['finalizers'] = True


_scan_finalizers()

# old package names still used by the hash/ directory -> the file that is meant
ALIASES = {
    'crypto.keyedHash.hmacHash': 'cryptopy.hash.hmac',
    'crypto.keyedHash.michael': 'cryptopy.hash.michael',
    'crypto.keyedHash.tkip_mic': 'cryptopy.hash.tkip_mic',
    'crypto.keyedHash.pbkdf2': 'cryptopy.hash.pbkdf2',
    'crypto.keyedHash.tkip_key_mixing': 'cryptopy.hash.tkip_key_mixing',
    'crypto.common': 'cryptopy.cipher.common',
    'crypto.cipher.common': 'cryptopy.cipher.common',
}


class Finder(object):
    """meta_path importer for the instrumented tree and the stand-ins for
    packages that are not part of /repo (see sim/shims.py)."""

    def __init__(self, kern):
        import shims
        self.k = kern
        self.shims = shims

    def _path(self, name):
        rel = name.split('.')[1:]
        base = os.path.join(REPO, *rel) if rel else REPO
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        if rel and os.path.isdir(base):
            return base, None           # a directory of modules, no package
        return None, False

    def find_module(self, name, path=None):
        if name == PKG or name.startswith(PKG + '.'):
            if self._path(name)[0]:
                return self
            return None
        if name in ALIASES or name in self.shim_names():
            return self
        return None

    def shim_names(self):
        return self.shims.NAMES

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        if name in ALIASES:
            __import__(ALIASES[name])
            m = sys.modules[ALIASES[name]]
            sys.modules[name] = m
            return m
        if name in self.shim_names():
            m = types.ModuleType(name)
            m.__path__ = []
            m.__loader__ = self
            sys.modules[name] = m
            self.shims.fill(name, m, self.k)
            return m
        path, ispkg = self._path(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__loader__ = self
        if ispkg is None:
            m.__path__ = [path]
            m.__package__ = name
        elif ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        m.__dict__['__sp__'] = self.k.sp
        m.__dict__['__spv__'] = self.k.spv
        sys.modules[name] = m
        if ispkg is None:
            return m
        try:
            exec _compile(path) in m.__dict__
        except:
            sys.modules.pop(name, None)
            raise
        return m


_OURS = (PKG, 'Crypto', 'crypto', 'binascii_plus')


def _purge():
    for n in list(sys.modules):
        if n.split('.')[0] in _OURS:
            del sys.modules[n]


# --------------------------------------------------------------------------
# jobs
# --------------------------------------------------------------------------
class SimCrash(BaseException):
    """The simulated node loses power at this point."""


EXC = {
    'crash': SimCrash,
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'SystemExit': SystemExit,
    'RuntimeError': RuntimeError,     # e.g. recursion limit hit / alarm handler raising
}


class Res(object):
    __slots__ = ('ok', 'value', 'exc', 'injected')

    def __init__(self, ok, value, exc, injected):
        self.ok = ok
        self.value = value
        self.exc = exc
        self.injected = injected      # a fault fired during the call

    def what(self):
        if self.ok:
            return 'returned %s' % show(self.value)
        return 'raised %s: %s' % (type(self.exc).__name__, str(self.exc)[:120])


def show(v):
    if isinstance(v, str):
        if len(v) > 40:
            return "hex:%s..(%d octets)" % (v[:40].encode('hex'), len(v))
        return 'hex:' + v.encode('hex')
    try:
        s = repr(v)
    except BaseException:
        s = '<unprintable %s>' % type(v).__name__
    return s if len(s) < 160 else s[:160] + '...'


class Job(Runnable):
    def __init__(self, kern, client, label, fn, faults, locks):
        self.k = kern
        self.client = client
        self.label = label
        self.fn = fn
        self.locks = locks
        f = faults or {}
        self.f = f
        ev = []
        for s in f.get('sw', []):
            ev.append((s[0], 0, 'sw', s[1]))
        for s in f.get('intr', []):
            ev.append((s[0], 1, 'intr', s[1]))
        ev.sort()
        self.ev = ev
        self.n = 0
        self.ncall = 0
        self.fired = 0
        self.sem = None
        self.thread = None
        self.exc = None
        self.done = False
        self.started = False
        self.blocked = None
        self.dev = dict((d[0], d[1]) for d in f.get('dev', []))
        self.ndev = 0
        self.ent = dict((d[0], d[1:]) for d in f.get('ent', []))
        self.nent = 0
        self.budget = kern.budget
        self.incall = False
        self.last_exc = None
        self.crashed = False
        self.dead = False
        self.rec = None

    def nxt(self):
        if self.ev:
            return min(self.ev[0][0], self.budget)
        return self.budget

    def body(self):
        try:
            self.fn(self)
        except BaseException as e:
            self.exc = (e, sys.exc_info()[2])
        except Throwable as e:
            self.exc = (HarnessError('java: %s' % e), sys.exc_info()[2])
        self.done = True

    def run(self):
        self.sem.acquire()
        self.body()
        self.k.main_sem.release()


# --------------------------------------------------------------------------
class Kernel(object):
    def __init__(self, known=None):
        self.known = known or {}
        self.finder = Finder(self)
        import simthreading
        self.simthreading = simthreading
        self.installed = False
        self._make_points()

    # -- sim points ---------------------------------------------------------
    def _make_points(self):
        S = self.S = [0, 1 << 60]
        k = self
        cur = Thread.currentThread
        A = self.A = [None]
        if TREE['finalizers']:
            def sp(loc):
                if cur() is not A[0]:
                    return
                S[0] += 1
                if S[0] >= S[1]:
                    k.hit(loc)

            def spv(loc, v):
                if cur() is not A[0]:
                    return v
                S[0] += 1
                if S[0] >= S[1]:
                    k.hit(loc)
                return v
        else:
            def sp(loc):
                S[0] += 1
                if S[0] >= S[1]:
                    k.hit(loc)

            def spv(loc, v):
                S[0] += 1
                if S[0] >= S[1]:
                    k.hit(loc)
                return v

        def rsp(loc):
            if cur() is not A[0]:
                return
            j = k.cur
            if j is None or not j.incall:
                return
            S[0] += 1
            r = j.rec
            if len(r) < 60000:
                r.append(loc)
            if S[0] >= S[1]:
                k.hit(loc)

        def rspv(loc, v):
            rsp(loc)
            return v
        self.modes = {False: (sp, spv), True: (rsp, rspv)}

    def hit(self, loc):
        j = self.cur
        S = self.S
        if j is None or not j.incall:
            S[1] = 1 << 60
            return
        j.n = S[0]
        if j.n >= j.budget:
            S[1] = j.n + 1000
            self.budget_hits += 1
            raise StepBudget('%s: more than %d steps' % (j.label, j.budget))
        while j.ev and j.ev[0][0] <= j.n:
            at, _, kind, arg = j.ev.pop(0)
            S[1] = j.nxt()
            if kind == 'sw':
                self.switch(j, arg, loc)
            elif loc in SHIELD or self.cleaning():
                j.ev.insert(0, (j.n + 1, _, kind, arg))
                break
            else:
                f, fn, line = LOCS[loc]
                self.count('intr:' + arg)
                self.trace('intr', j.label, arg, f + ':' + fn, line)
                self.inter('I', j.client, fn)
                j.fired += 1
                if arg == 'crash':
                    j.crashed = True
                j.last_exc = EXC[arg]('injected at step %d' % at)
                raise j.last_exc
        S[1] = j.nxt()

    def cleaning(self):
        """is clean-up code running, in any of the frames of this call?"""
        if CLEANUP:
            f = sys._getframe(2)
            while f is not None:
                c = CLEANUP.get(f.f_code.co_filename)
                if c and f.f_lineno in c:
                    return True
                f = f.f_back
        return False

    # -- run life cycle -----------------------------------------------------
    def begin(self, plan, record=False):
        self.plan = plan
        self.recording = record
        self.recs = {}
        self.sp, self.spv = self.modes[record]
        self.now = 0.0
        self.seq = 0
        self.q = []
        self.cur = None
        self.jobs = []          # unfinished, started jobs
        self.clients_busy = {}
        self.locks_held = {}
        self.main_sem = Semaphore(0)
        self.request = None
        self.counts = {}
        self.steps = {}         # label -> steps used
        self.devcalls = {}
        self.entcalls = {}
        self.budget = plan.get('budget', 400000)
        self.digest = hashlib.sha1()
        self.sig = hashlib.sha1()
        self.log = []
        self.keep_log = plan.get('keep_log', False)
        self.budget_hits = 0
        self.threads = self.plan_switches(plan)
        self.skew = 0.0
        self.sim_end = 0.0
        self.nops = 0
        self.known_hits = {}
        self.epoch = plan.get('epoch', 1400000000)
        self.ent_seed = 'ent%d' % plan.get('seed', 0)
        self.ent_ctr = 0
        self.ent_log = []
        self.tls = {}
        self.policy = plan.get('pol', 0)
        self.S[0] = 0
        self.S[1] = 1 << 60
        self.A[0] = Thread.currentThread()
        _purge()
        self._install()

    def end(self):
        self.cur = None
        # threads still parked are abandoned only after a violation
        for j in self.jobs:
            j.dead = True
        self._uninstall()
        _purge()

    @staticmethod
    def plan_switches(plan):
        def walk(o):
            if isinstance(o, dict):
                if o.get('sw'):
                    return True
                return any(walk(v) for v in o.values())
            if isinstance(o, list):
                return any(walk(v) for v in o)
            return False
        return walk(plan.get('ops', [])) or walk(plan.get('extra', {}))

    def load(self, name):
        full = PKG + '.' + name
        self.finder.find_module(full)
        __import__(full)
        return sys.modules[full]

    # -- seams --------------------------------------------------------------
    def _install(self):
        if self.installed:
            return
        import time
        sys.meta_path.insert(0, self.finder)
        os.urandom = self.urandom
        self._saved = {}
        for n in ('time', 'clock', 'sleep'):
            self._saved[n] = getattr(time, n)
        time.time = self.vtime
        time.clock = self.vtime
        time.sleep = self.vsleep
        if hasattr(random, '_urandom'):
            self._saved['_urandom'] = random._urandom
            random._urandom = self.urandom
        random.seed(self.plan.get('seed', 0) & 0xffffffff)
        self._saved['rl'] = sys.getrecursionlimit()
        self._saved['mods'] = {}
        for n in ('threading', 'thread'):
            self._saved['mods'][n] = sys.modules.get(n)
            sys.modules[n] = self.simthreading.facade(self, n)
        self.installed = True

    def _uninstall(self):
        if not self.installed:
            return
        import time
        if self.finder in sys.meta_path:
            sys.meta_path.remove(self.finder)
        os.urandom = _real_urandom
        for n in ('time', 'clock', 'sleep'):
            setattr(time, n, self._saved[n])
        if '_urandom' in self._saved:
            random._urandom = self._saved['_urandom']
        for n, m in self._saved['mods'].items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        self.installed = False

    def vtime(self):
        return self.epoch + self.now + self.skew

    def vsleep(self, s):
        self.now += max(0.0, float(s))

    def urandom(self, n):
        """The simulated entropy device."""
        j = self.cur
        if j is None or not j.incall:
            return self.ent_bytes(n)
        i = j.nent
        j.nent += 1
        self.entcalls[j.label] = j.nent
        spec = j.ent.pop(i, None)
        if spec is None:
            b = self.ent_bytes(n)
            self.ent_log.append((j.label, n, b))
            return b
        kind = spec[0]
        self.count('entropy:' + kind)
        self.trace('entropy', j.label, kind)
        if kind == 'oserror':
            j.fired += 1
            self.ent_log.append((j.label, n, None))
            j.last_exc = OSError(5, 'entropy device: I/O error')
            raise j.last_exc
        if kind == 'notimpl':
            j.fired += 1
            self.ent_log.append((j.label, n, None))
            j.last_exc = NotImplementedError('no entropy device')
            raise j.last_exc
        if kind == 'short':
            j.fired += 1
            b = self.ent_bytes(n)[:int(spec[1]) % max(1, n)]
        elif kind == 'fill':            # legal: any value may come out of the device
            b = chr(int(spec[1]) & 255) * n
        elif kind == 'low':             # legal: zeros and then a small value
            b = '\0' * (n - 1) + chr(int(spec[1]) & 255)
        elif kind == 'hex':             # legal: chosen octets, right aligned
            b = spec[1].decode('hex')
            b = (chr(0) * n + b)[-n:]
        else:
            raise HarnessError('entropy fault %r' % (spec,))
        self.ent_log.append((j.label, n, b))
        return b

    def ent_bytes(self, n):
        out = ''
        while len(out) < n:
            out += hashlib.sha256('%s/%d' % (self.ent_seed, self.ent_ctr)).digest()
            self.ent_ctr += 1
        return out[:n]

    def stub_points(self, name):
        """sim points of a stand-in"""
        if name not in STUBS:
            STUBS[name] = [len(LOCS) + i for i in range(3)]
            LOCS.extend([('stand-in', name, i) for i in range(3)])
        return STUBS[name]

    def point(self, loc):
        if self.cur is not None and self.cur.incall:
            self.sp(loc)

    def device_call(self):
        """Called by the block-cipher stand-in before each block operation."""
        j = self.cur
        if j is None or not j.incall:
            return
        i = j.ndev
        j.ndev += 1
        self.devcalls[j.label] = j.ndev
        kind = j.dev.pop(i, None)
        if kind is not None:
            self.count('device:' + kind)
            self.trace('device', j.label, kind)
            j.fired += 1
            j.last_exc = IOError(5, 'cipher device: ' + kind)
            raise j.last_exc

    # -- bookkeeping --------------------------------------------------------
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def trace(self, *a):
        s = '|'.join([str(x) for x in a])
        self.digest.update(s)
        self.digest.update('\n')
        if self.keep_log:
            self.log.append('%.3f %s' % (self.now, s))

    def inter(self, *a):
        self.sig.update('|'.join([str(x) for x in a]))

    def violate(self, kind, key, detail):
        kk = kind + '/' + key
        if kk in self.known:
            self.known_hits[kk] = self.known_hits.get(kk, 0) + 1
            return
        raise Violation(kind, key, detail)

    # -- events and jobs ----------------------------------------------------
    def at(self, t, client, label, fn, faults=None, locks=()):
        """Schedule a job: `fn(job)` on caller thread `client` at virtual time t."""
        self.seq += 1
        heapq.heappush(self.q, (t, self.seq, Job(self, client, label, fn, faults, tuple(locks))))

    def after(self, dt, client, label, fn, faults=None, locks=()):
        self.at(self.now + dt, client, label, fn, faults, locks)

    def send(self, fates, client, label, fn, payload, default_delay=1.0, locks=()):
        """Send `payload` over the simulated network.  `fates` is a list of
        delivery records (none: the message is lost; two: duplicated)."""
        if fates is None:
            fates = [{}]
        if not fates:
            self.count('net:drop')
            self.trace('drop', label)
        if len(fates) > 1:
            self.count('net:dup', len(fates) - 1)
        for i, f in enumerate(fates):
            p = payload
            if f.get('d'):
                self.count('net:delay')
            self.after(default_delay + f.get('d', 0.0), client, '%s.%d' % (label, i),
                       lambda job, p=p, f=f: fn(job, p, f), f, locks)

    def runnable_event(self, pop):
        """first pending event whose client and locks are free"""
        best = None
        for i, (t, s, j) in enumerate(self.q):
            if j.client in self.clients_busy:
                continue
            if any(l in self.locks_held for l in j.locks):
                continue
            # a client's jobs stay in order
            if best is None or (t, s) < (self.q[best][0], self.q[best][1]):
                best = i
        if best is None:
            return None
        if not pop:
            return self.q[best]
        it = self.q[best]
        self.q[best] = self.q[-1]
        self.q.pop()
        heapq.heapify(self.q)
        return it

    def parked(self, exclude=None):
        return [j for j in self.jobs if j is not exclude and (j.blocked is None or j.blocked())]

    def switch(self, j, r, loc):
        """Called in job j's thread: give the processor away."""
        if not self.threads:
            return
        cands = self.parked(exclude=j)
        ev = self.runnable_event(False)
        n = len(cands) + (1 if ev is not None else 0)
        if n == 0:
            self.count('sw:noop')
            return
        c = r % n
        f, fn, line = LOCS[loc]
        self.count('switch')
        self.trace('switch', j.label, f + ':' + fn, line, c)
        self.inter('S', j.client, fn, c)
        self.overlap = True
        self.park(j, cands[c] if c < len(cands) else None)

    def park(self, j, target):
        j.n = self.S[0]
        self.request = (j, target)
        self.main_sem.release()
        j.sem.acquire()
        if j.dead:
            raise HarnessError('abandoned')

    def block(self, pred):
        """cooperative blocking for lock facades: wait until pred()"""
        j = self.cur
        if j is None:
            return
        while not pred():
            if not self.threads:
                raise Violation('deadlock', j.label, 'operation %s waits for ever' % j.label)
            j.blocked = pred
            self.park(j, None)
            j.blocked = None

    def _resume(self, j):
        self.cur = j
        self.S[0] = j.n
        self.S[1] = j.nxt() if j.incall else 1 << 60
        self.A[0] = j.thread
        j.sem.release()
        self.main_sem.acquire()
        self._after(j)

    def _after(self, j):
        self.cur = None
        if j.done:
            if j in self.jobs:
                self.jobs.remove(j)
            self.clients_busy.pop(j.client, None)
            for l in j.locks:
                self.locks_held.pop(l, None)
            self.steps[j.label] = j.n
            self.trace('end', j.label, j.n, j.fired)
            if j.exc is not None:
                e, tb = j.exc
                raise type(e), e, tb

    def _start(self, item):
        t, s, j = item
        if t > self.now:
            self.now = t
        if self.now > self.sim_end:
            self.sim_end = self.now
        self.nops += 1
        if self.nops > self.plan.get('max_jobs', 5000):
            raise HarnessError('too many jobs')
        self.trace('start', j.label, j.client)
        self.inter('J', j.client, j.label.split('#')[0])
        if self.recording:
            j.rec = self.recs.setdefault(j.label, [])
        if 'clk' in j.f:
            self.skew += j.f['clk']
            self.count('clock:jump')
        self.clients_busy[j.client] = j
        for l in j.locks:
            self.locks_held[l] = j
        if self.threads:
            j.sem = Semaphore(0)
            j.thread = Thread(None, j, 'sim-' + j.label, 64 << 20)
            j.thread.setDaemon(True)
            self.jobs.append(j)
            j.thread.start()
            self._resume(j)
        else:
            self.cur = j
            j.thread = Thread.currentThread()
            j.body()
            self._after(j)

    def loop(self):
        while True:
            target = None
            yielder = None
            if self.request is not None:
                yielder, target = self.request
                self.request = None
                if target is None:
                    ev = self.runnable_event(True)
                    if ev is not None:
                        self._start(ev)
                        continue
                    c = self.parked(exclude=yielder)
                    if not c:
                        c = self.parked()
                    if not c:
                        self._deadlock()
                    target = c[0]
                self._resume(target)
                continue
            c = self.parked()
            ev = self.runnable_event(False)
            if c and (ev is None or self.policy != 2):
                self._resume(c[0] if self.policy != 1 else c[-1])
                continue
            if ev is not None:
                self._start(self.runnable_event(True))
                continue
            if self.jobs:
                self._deadlock()
            if self.q:
                raise HarnessError('events that can never run')
            return

    def _deadlock(self):
        raise Violation('deadlock', ','.join(sorted(j.label.split('#')[0] for j in self.jobs)),
                        'no caller thread can make progress')

    # -- calling the code under test ----------------------------------------
    def call(self, fn, *args, **kw):
        j = self.cur
        if j is None:
            raise HarnessError('call outside a job')
        fired = j.fired
        j.incall = True
        S = self.S
        S[0] = j.n
        S[1] = j.nxt()
        try:
            try:
                v = fn(*args, **kw)
                r = Res(True, v, None, False)
            except (Violation, HarnessError):
                raise
            except StepBudget as e:
                raise Violation('no-termination', j.label.split('#')[0], str(e))
            except BaseException as e:
                r = Res(False, None, e, False)
            except Throwable as e:
                r = Res(False, None, RuntimeError('java: %s' % e), False)
        finally:
            j.incall = False
            j.n = S[0]
            S[1] = 1 << 60
        r.injected = j.fired > fired
        j.ncall += 1
        if r.injected and r.ok:
            self.count('fault-swallowed')
        return r
