"""Scenario context and the table of scenarios."""
import errno
import os
import sys

import core
import fs

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCENARIOS = {}
PREPARE = {}


def scenario(name, prepare=None):
    def deco(fn):
        SCENARIOS[name] = fn
        PREPARE[name] = prepare
        return fn
    return deco


READ_ERRORS = ('EIO', 'EMFILE', 'EINTR')
WRITE_ERRORS = ('ENOSPC', 'EIO', 'EMFILE', 'EACCES', 'EINTR')


class Ctx(object):
    def __init__(self, sim, ch, root, tier):
        self.sim, self.ch, self.root, self.tier = sim, ch, root, tier
        self.stats = {}
        self.nontrivial = False
        self.summary = []
        self.known = {}
        self.nproc = 0

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def say(self, *what):
        line = ' '.join([str(w) for w in what])
        self.sim.note(line)
        if len(self.summary) < 40:
            self.summary.append(line[:300])

    def violate(self, kind, detail):
        raise core.Violation(kind, detail)

    # -- processes
    def proc(self, *dirs, **k):
        self.nproc += 1
        p = self.sim.process('P%d' % self.nproc,
                             [REPO + '/' + d for d in (dirs or ('vts',))],
                             k.get('stubs'))
        p.injected = 0
        return p

    # -- faults
    def io_faults(self, p, kinds, limit=40, num=1, den=2):
        """Arm one fault (and perhaps more after it) at a chosen seam call."""
        g = self.ch.gap(limit, 'io-fault-at', num, den)
        if not g:
            return
        p.io_fault_at = p.io_n + g
        kind = kinds[self.ch.pick(len(kinds), 'io-fault-kind')]

        def fire(op, path):
            p.injected += 1
            self.nontrivial = True
            again = self.ch.gap(limit, 'io-fault-again', 1, 3)
            if again:
                p.io_fault_at = p.io_n + again
            if kind == 'error':
                if op in ('openr', 'read', 'stat', 'listdir'):
                    e = READ_ERRORS[self.ch.pick(len(READ_ERRORS), 'errno')]
                else:
                    e = WRITE_ERRORS[self.ch.pick(len(WRITE_ERRORS), 'errno')]
                return ('error', e)
            if kind == 'crash':
                return ('crash',)
            if kind == 'powerloss':
                return ('powerloss',)
            if kind == 'interrupt':
                return ('raise', KeyboardInterrupt)
            if kind == 'memory':
                return ('raise', MemoryError)
            raise core.HarnessError(kind)
        p.io_fault = fire

    def step_faults(self, p, kinds, limit=600, num=1, den=2, even=(1, 3)):
        if self.ch.flip(even[0], even[1], 'even'):
            g = self.ch.flip(num, den, 'step-fault') and \
                1 + self.ch.pick(limit, 'step-fault-at')
        else:
            g = self.ch.gap(limit, 'step-fault-at', num, den)
        if not g:
            return
        p.step_fault_at = p.step_n + g
        kind = kinds[self.ch.pick(len(kinds), 'step-fault-kind')]

        def fire():
            p.injected += 1
            self.nontrivial = True
            s = self.sim
            if kind == 'interrupt':
                s.fault('KeyboardInterrupt')
                s.note('fault KeyboardInterrupt', p.name)
                raise KeyboardInterrupt()
            if kind == 'memory':
                s.fault('MemoryError')
                s.note('fault MemoryError', p.name)
                raise MemoryError()
            if kind == 'crash':
                s.fault('crash')
                s.kill(p, 'at statement')
            if kind == 'powerloss':
                s.fault('powerloss')
                fs.power_loss(s)
            raise core.HarnessError(kind)
        p.step_fault = fire

    def out_faults(self, p, limit=12, num=1, den=6):
        g = self.ch.gap(limit, 'out-fault-at', num, den)
        if not g:
            return
        p.out_fault_at = p.out_n + g

        def fire():
            p.injected += 1
            self.nontrivial = True
            self.sim.fault('stdout-epipe')
            self.sim.note('fault EPIPE', p.name)
            raise IOError(errno.EPIPE, 'Broken pipe')
        p.out_fault = fire

    def disarm(self, p):
        p.io_fault_at = p.step_fault_at = p.out_fault_at = 0

    def call(self, p, fn, *a):
        """Call from a simulated thread of p.  -> ('ok', value),
        ('fault', exc) when something was injected during the call, or
        ('err', exc)."""
        before = p.injected
        enospc = self.sim.faults.get('io-enospc', 0)
        try:
            return ('ok', fn(*a))
        except (core.SimCrash, core.SimStop):
            raise
        except BaseException, e:
            if p.injected != before or \
                    self.sim.faults.get('io-enospc', 0) != enospc:
                return ('fault', e)
            return ('err', e)

    def go(self, p, fn, name=None):
        """Spawn fn in p; run everything; return its value."""
        t = self.sim.spawn(p, fn, name)
        self.sim.run()
        if t.error is not None:
            raise t.error
        return t.result

    def chunk(self):
        self.sim.fs.chunk = (4096, 64, 512, 1 << 16)[self.ch.pick(4, 'chunk')]

    def settle(self):
        """All faults stop; every process still alive ends normally."""
        self.sim.fs.full = False
        self.sim.set_preempt(0)
        for p in self.sim.procs:
            if not p.crashed:
                self.disarm(p)
                self.sim.exit(p)


def describe(e):
    return '%s: %s' % (e.__class__.__name__, str(e)[:200])


def prepare(name):
    fn = PREPARE.get(name)
    if fn is not None:
        fn()


import p_vts
for _m in ('p_store', 'p_parse', 'p_qe', 'p_grf'):
    if os.path.exists(os.path.join(os.path.dirname(__file__), _m + '.py')):
        __import__(_m)
