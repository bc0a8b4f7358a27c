"""Deterministic simulator: one seed is one execution.

The control thread builds simulated processes, spawns simulated threads in
them and calls run().  Exactly one simulated thread runs at a time; it gives
the turn away only at yield points: before every statement of the code under
test (the source is instrumented when it is loaded) and at every seam call
(file system, clock, standard streams, locks).  Every decision -- workload,
schedule, fault -- comes from one Chooser, whose recorded list of integers is
the replay file.  0 is always the plainest choice (no fault, no switch).
"""
import __builtin__
import ast
import imp
import os
import sys
import zlib

from java.util.concurrent import Semaphore
from java.lang import Thread, Runnable, StackOverflowError

REAL_IMPORT = __builtin__.__import__
STACK = 64 << 20


class Violation(Exception):
    def __init__(self, kind, detail):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    pass


class SimCrash(BaseException):
    """The simulated process has been killed."""


class SimStop(BaseException):
    """The run is being torn down."""


# --------------------------------------------------------------------- choices
MASK = (1 << 64) - 1


class Rng(object):
    """splitmix64: the same stream on every machine and interpreter."""

    def __init__(self, seed):
        self.s = (seed * 0x9E3779B97F4A7C15 + 0x1234567) & MASK
        for _ in range(3):
            self.next()

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & MASK
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
        return z ^ (z >> 31)

    def below(self, n):
        return int(self.next() % n)


class Chooser(object):
    def __init__(self, seed=None, replay=None):
        self.rng = Rng(seed) if replay is None else None
        self.replay = replay
        self.rec = []
        self.labels = []

    def _take(self, fresh, n, label):
        if self.replay is None:
            v = fresh()
        else:
            i = len(self.rec)
            v = self.replay[i] if i < len(self.replay) else 0
            if n is not None:
                v = v % n
        self.rec.append(int(v))
        self.labels.append(label)
        return int(v)

    def pick(self, n, label):
        """uniform in range(n)"""
        return self._take(lambda: self.rng.below(n), n, label)

    def of(self, seq, label):
        return seq[self.pick(len(seq), label)]

    def between(self, lo, hi, label):
        return lo + self.pick(hi - lo + 1, label)

    def flip(self, num, den, label):
        """1 with probability num/den; 0 is the plain outcome"""
        return self._take(lambda: 1 if self.rng.below(den) < num else 0, 2,
                          label)

    def weighted(self, weights, label):
        def fresh():
            r = self.rng.below(sum(weights))
            for i, w in enumerate(weights):
                if r < w:
                    return i
                r -= w
        return self._take(fresh, len(weights), label)

    def gap(self, limit, label, num=1, den=1):
        """0 = never (with probability 1 - num/den), else log-uniform in
        1..limit"""
        def fresh():
            if self.rng.below(den) >= num:
                return 0
            bits = 1
            while (1 << bits) <= limit:
                bits += 1
            hi = min(1 << (1 + self.rng.below(bits)), limit)
            return 1 + self.rng.below(hi)
        return self._take(fresh, None, label)

    def shuffled(self, seq, label):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.pick(len(seq), label)
                               if len(seq) > 1 else 0))
        return out


# ----------------------------------------------------------------- source code
def _instrument(body, doc):
    out = []
    for i, st in enumerate(body):
        isdoc = doc and i == 0 and isinstance(st, ast.Expr) and \
            isinstance(st.value, ast.Str)
        isfut = isinstance(st, ast.ImportFrom) and st.module == '__future__'
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(st, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(st, f, _instrument(list(b), f == 'body' and isinstance(
                    st, (ast.FunctionDef, ast.ClassDef))))
        for h in (getattr(st, 'handlers', None) or []):
            h.body = _instrument(list(h.body), False)
        if not (isdoc or isfut):
            call = ast.Expr(ast.Call(ast.Name('__sim_step__', ast.Load()), [],
                                     [], None, None))
            for n in (call, call.value, call.value.func):
                ast.copy_location(n, st)
            out.append(call)
        out.append(st)
    return out


_code = {}


def code_for(path, transform=None):
    key = (path, transform)
    if key not in _code:
        with REAL_OPEN(path, 'rb') as f:
            src = f.read().replace('\r\n', '\n') + '\n'
        if transform is not None:
            src = transform(src)
        tree = ast.parse(src, path)
        tree.body = _instrument(list(tree.body), True)
        ast.fix_missing_locations(tree)
        _code[key] = compile(tree, path, 'exec')
    return _code[key]


REAL_OPEN = __builtin__.open


# ------------------------------------------------------------------- processes
class Proc(object):
    """A simulated process: its own copy of every module of the code under
    test.  `dirs` is its module search path inside /repo; `stubs` are modules
    only it sees (absent dependencies)."""

    def __init__(self, sim, name, dirs, stubs=None):
        self.sim = sim
        self.name = name
        self.dirs = dirs
        self.modules = dict(stubs or {})
        self.crashed = False
        self.files = []          # open SimFiles
        self.stdout = []         # text printed
        self.stdin = None        # callable(prompt) for raw_input
        self.argv = ['repl']
        self.importing = None
        self.io_n = 0
        self.io_fault_at = 0     # 0 = none
        self.io_fault = None     # callable(op, path) -> action
        self.step_n = 0
        self.step_fault_at = 0
        self.step_fault = None   # callable() -> raises
        self.out_n = 0
        self.out_fault_at = 0
        self.out_fault = None

    def load(self, name):
        # as with the real import lock, a second thread waits for the first
        me = self.sim.cur
        if self.importing is not None and self.importing is not me:
            self.sim.block(lambda: self.importing is None)
        m = self.modules.get(name)
        if m is not None:
            return m
        outer = self.importing
        self.importing = me
        try:
            return self._load(name)
        finally:
            self.importing = outer

    def _load(self, name):
        for d in self.dirs:
            p = d + '/' + name + '.py'
            if os.path.isfile(p):
                m = imp.new_module(name)
                m.__file__ = p
                m.__dict__['__sim_step__'] = step
                code = code_for(p)
                self.modules[name] = m
                self.publish(name)
                try:
                    exec code in m.__dict__
                except BaseException:
                    # as the real import does
                    self.modules.pop(name, None)
                    sys.modules.pop(name, None)
                    raise
                return m
        return None

    def owns(self, name):
        if name in self.modules:
            return True
        if name in _not_ours:
            return False
        for d in self.dirs:
            if os.path.isfile(d + '/' + name + '.py'):
                return True
        _not_ours.add(name)
        return False

    def publish(self, name=None):
        """Make this process' modules the ones pickle finds by name."""
        for n in ([name] if name else self.modules):
            sys.modules[n] = self.modules[n]
            _published.add(n)


_not_ours = set()
_published = set()


def _unpublish():
    for n in list(_published):
        sys.modules.pop(n, None)
    _published.clear()


def sim_import(name, *args, **kw):
    fromlist = args[2] if len(args) > 2 else kw.get('fromlist')
    s = SIM
    if s is not None and s.cur is not None:
        p = s.cur.proc
        if '.' not in name:
            if p.owns(name):
                return p.load(name)
        else:
            top = name.split('.')[0]
            if top in p.modules:
                m = p.load(top)
                if not fromlist:
                    return m
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
                return m
    return REAL_IMPORT(name, *args, **kw)


# --------------------------------------------------------------------- threads
class SimThread(Runnable):
    def __init__(self, sim, proc, fn, name):
        self.sim = sim
        self.proc = proc
        self.fn = fn
        self.name = name
        self.sem = Semaphore(0)
        self.done = False
        self.pred = None         # blocked until pred()
        self.said = None         # what this thread prints, when wanted
        self.result = None
        self.error = None
        self.jt = Thread(None, self, name, STACK)
        self.jt.setDaemon(True)

    def run(self):
        self.sem.acquire()
        try:
            try:
                if not self.sim.stopping and not self.proc.crashed:
                    self.result = self.fn()
            except SimCrash:
                pass
            except SimStop:
                pass
            except StackOverflowError:
                self.error = RuntimeError('maximum recursion depth exceeded')
            except BaseException, e:
                self.error = e
                self.tb = sys.exc_info()[2]
        finally:
            self.done = True
            self.sim._thread_ended(self)


class Sim(object):
    STEP_LIMIT = 3000000

    def __init__(self, chooser):
        self.ch = chooser
        self.cur = None
        self.threads = []
        self.procs = []
        self.main = Semaphore(0)
        self.steps = 0
        self.preempt_at = 0
        self.preempt_mean = 0
        self.switches = 0
        self.stopping = False
        self.stuck = None
        self.clock = 1000000.0
        self.t0 = self.clock
        self.crc = 0
        self.sched = 0           # crc of the schedule alone
        self.events = []
        self.faults = {}
        self.probes = 0
        self.fs = None
        self.fds = {}
        self.tick = 0.0

    # -- bookkeeping
    def note(self, *what):
        line = ' '.join([str(w) for w in what])
        self.crc = zlib.crc32(line, self.crc) & 0xffffffff
        if len(self.events) < 4000:
            self.events.append(line)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    # -- building
    def process(self, name, dirs, stubs=None):
        p = Proc(self, name, dirs, stubs)
        self.procs.append(p)
        return p

    def spawn(self, proc, fn, name=None):
        t = SimThread(self, proc, fn, name or proc.name)
        self.threads.append(t)
        t.jt.start()
        return t

    # -- scheduling
    def runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.pred is not None:
                if t.proc.crashed or self.stopping or t.pred():
                    out.append(t)
            else:
                out.append(t)
        return out

    def set_preempt(self, limit):
        """0: run to completion/blocking; else log-uniform gaps to limit."""
        self.preempt_mean = limit
        self._draw_preempt()

    def _draw_preempt(self):
        if self.preempt_mean and len(self.runnable()) > 1:
            g = self.ch.gap(self.preempt_mean, 'preempt')
            self.preempt_at = self.steps + g if g else 0
        else:
            self.preempt_at = 0

    def run(self):
        """Run every spawned thread to its end."""
        if self.cur is not None:
            raise HarnessError('nested run')
        while True:
            r = self.runnable()
            if not r:
                left = [t for t in self.threads if not t.done]
                if left:
                    self.stuck = 'deadlock: %s blocked for ever' % \
                        ','.join([t.name for t in left])
                    self.stopping = True
                    for t in left:
                        self._give(t)
                        self.main.acquire()
                    self.stopping = False
                break
            t = r[0] if len(r) == 1 else r[self.ch.pick(len(r), 'first')]
            self._draw_preempt()
            self._give(t)
            self.main.acquire()
            self.cur = None
        self.cur = None
        _unpublish()
        self.threads = []
        if self.stuck:
            s, self.stuck = self.stuck, None
            raise Violation('no-progress', s)

    def _give(self, t):
        if self.cur is None or self.cur.proc is not t.proc:
            _unpublish()
            t.proc.publish()
        self.cur = t
        t.pred = None
        t.sem.release()

    def _thread_ended(self, t):
        if self.stopping:
            self.main.release()
            return
        r = self.runnable()
        if not r:
            self.main.release()
            return
        n = r[0] if len(r) == 1 else r[self.ch.pick(len(r), 'next')]
        self._draw_preempt()
        self.note('end', t.name, '->', n.name)
        self._give(n)

    def switch_to(self, n):
        me = self.cur
        if n is me:
            me.pred = None
            return
        self.switches += 1
        self.sched = zlib.crc32('%s@%d;' % (n.name, self.steps),
                                self.sched) & 0xffffffff
        self.note('switch', me.name, '->', n.name)
        self._give(n)
        me.sem.acquire()
        if self.stopping:
            raise SimStop()
        if me.proc.crashed:
            raise SimCrash()

    def preempt(self):
        r = [t for t in self.runnable() if t is not self.cur]
        self.preempt_at = 0
        if not r:
            return
        n = r[0] if len(r) == 1 else r[self.ch.pick(len(r), 'to')]
        g = self.ch.gap(self.preempt_mean, 'preempt')
        self.preempt_at = self.steps + g if g else 0
        self.switch_to(n)

    def block(self, pred):
        """The current thread waits until pred() holds."""
        me = self.cur
        while not pred():
            me.pred = pred
            r = [t for t in self.runnable() if t is not me]
            if not r:
                me.pred = None
                self.stuck = '%s waits for ever' % me.name
                self.stopping = True
                raise SimStop()
            n = r[0] if len(r) == 1 else r[self.ch.pick(len(r), 'unblock')]
            self.switch_to(n)
        me.pred = None

    def yield_point(self):
        """Called with the turn held."""
        me = self.cur
        p = me.proc
        if self.stopping:
            raise SimStop()
        if p.crashed:
            raise SimCrash()
        self.steps += 1
        p.step_n += 1
        if self.steps > self.STEP_LIMIT:
            self.stuck = 'no end after %d steps' % self.STEP_LIMIT
            self.stopping = True
            raise SimStop()
        if p.step_n == p.step_fault_at:
            p.step_fault_at = 0
            p.step_fault()
        if self.steps == self.preempt_at:
            self.preempt()

    def io(self, op, path):
        """A seam call.  Returns an action for the seam or None."""
        me = self.cur
        p = me.proc
        if self.stopping:
            raise SimStop()
        if p.crashed:
            raise SimCrash()
        self.sched = zlib.crc32('%s:%s;' % (me.name, op), self.sched) \
            & 0xffffffff
        self.yield_point()
        p.io_n += 1
        act = None
        if p.io_n == p.io_fault_at:
            p.io_fault_at = 0
            act = p.io_fault(op, path)
        return act

    def kill(self, proc, why):
        """Crash a process now.  Its threads die at their next turn."""
        self.note('crash', proc.name, why)
        proc.crashed = True
        for f in proc.files:
            f.lost()
        proc.files = []
        if self.cur is not None and self.cur.proc is proc:
            raise SimCrash()

    def exit(self, proc):
        """A process ends in the ordinary way: open files are flushed."""
        for f in list(proc.files):
            try:
                f.close()
            except (IOError, OSError):
                pass


SIM = None


def step():
    s = SIM
    if s is None or s.cur is None:
        return
    s.yield_point()


def pause():
    """A yield point of the harness' own: may switch, injects nothing."""
    s = SIM
    if s is None or s.cur is None:
        return
    if s.stopping:
        raise SimStop()
    if s.cur.proc.crashed:
        raise SimCrash()
    s.steps += 1
    if s.steps == s.preempt_at:
        s.preempt()


def activate(sim):
    global SIM
    SIM = sim
    _unpublish()


__builtin__.__import__ = sim_import


# ----------------------------------------------------------------------- locks
class SimLock(object):
    """threading.Lock that never blocks the simulator."""

    def __init__(self, rec=False):
        self.owner = None
        self.count = 0
        self.rec = rec

    def _who(self):
        s = SIM
        if s is not None and s.cur is not None:
            return s.cur
        return 'control'

    def acquire(self, blocking=1):
        me = self._who()
        if me != 'control':
            SIM.yield_point()
        if self.rec and self.owner is me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if me == 'control':
                raise HarnessError('control thread would block')
            SIM.block(lambda: self.owner is None)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
