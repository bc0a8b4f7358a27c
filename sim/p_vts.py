"""C01-C05: sign-matrix lookups and the decision procedure."""
import sympy

import core
import fs
import reference
import sympyfast
import z3rcf
from props import scenario, describe


_ready = []


def prepare():
    if _ready:
        return
    _ready.append(1)
    sympyfast.install()
    import sympy.physics.quantum
    for n in (1, 2, 3):
        for inv in (False, True):
            sympyfast.flat_expected(n, inv)


def wrong_matrix(m, n, inverse):
    """None, or how m differs from the exact matrix."""
    size = 3 ** n
    if getattr(m, 'shape', None) != (size, size):
        return 'shape %s, not %s' % (getattr(m, 'shape', None), (size, size))
    exp = sympyfast.flat_expected(n, inverse)
    got = list(m)
    if got == exp and all(getattr(v, 'is_Rational', False) for v in set(got)):
        return None
    for i, (a, b) in enumerate(zip(got, exp)):
        if a != b or not getattr(sympy.sympify(a), 'is_Rational', False):
            return 'entry (%d,%d) is %s, not %s' % (i // size, i % size, a, b)
    return None


def pick_n(ctx):
    if ctx.tier == 'quick':
        return (1, 2, 3, 4, 5)[ctx.ch.weighted((20, 45, 30, 4, 1), 'n')]
    return (1, 2, 3, 4, 5)[ctx.ch.weighted((15, 38, 35, 9, 3), 'n')]


def lookup(mod, n, inverse):
    if inverse:
        return mod.get_matrix_inverse(n)
    return mod.get_matrix(n)


class World(object):
    """Processes that share a working directory, hence the matrix cache."""

    def __init__(self, ctx, exact, available):
        self.ctx = ctx
        self.exact = exact            # wrong values are violations
        self.available = available    # unexplained failures are violations
        self.held = []                # matrices handed out earlier

    def start(self, p):
        """import matrix_of_signs in p"""
        st, v = self.ctx.call(p, p.load, 'matrix_of_signs')
        if st == 'ok':
            if v is None:
                raise core.HarnessError('no matrix_of_signs')
            return v
        if st == 'err' and self.available:
            self.ctx.violate('start-fails', 'importing the matrix module '
                             'fails: %s' % describe(v))
        return None

    def one(self, p, mod, n, inverse):
        ctx = self.ctx
        st, v = ctx.call(p, lookup, mod, n, inverse)
        what = 'inverse' if inverse else 'matrix'
        ctx.count('lookups')
        if st == 'ok':
            if self.exact:
                bad = wrong_matrix(v, n, inverse)
                if bad:
                    ctx.violate('wrong-matrix', '%s(%d): %s' % (what, n, bad))
            return v
        if st == 'err' and self.available:
            ctx.violate('lookup-fails', '%s(%d) raises %s with nothing '
                        'injected into the call' % (what, n, describe(v)))
        return None

    def final(self, ns):
        """No more faults: a new process in the directory."""
        ctx = self.ctx
        p = ctx.proc()

        def body():
            mod = self.start(p)
            if mod is None:
                return
            for n, inv in ns:
                self.one(p, mod, n, inv)
        ctx.go(p, body)
        ctx.sim.exit(p)


FAULTS = ('crash', 'powerloss', 'error', 'interrupt', 'memory')


def cache_phases(ctx, w, threads, mutate=None, faults=FAULTS, sim_ops=6):
    ch, sim = ctx.ch, ctx.sim
    ctx.chunk()
    asked = []
    for phase in range(ch.between(1, 3, 'phases')):
        nproc = ch.between(1, 3, 'procs')
        sim.set_preempt((0, 400, 60, 2000)[ch.weighted((2, 3, 3, 2),
                                                       'preempt-style')])
        if ch.flip(1, 8, 'diskfull'):
            sim.fs.full = True
            ctx.nontrivial = True
            ctx.say('phase', phase, 'disk full')
        procs = []
        for i in range(nproc):
            p = ctx.proc()
            plans = []
            for t in range(ch.between(1, threads, 'threads')):
                ops = []
                for _ in range(ch.between(1, sim_ops, 'ops')):
                    ops.append((pick_n(ctx), ch.pick(2, 'inverse')))
                asked.extend(ops)
                plans.append(ops)
            if faults:
                ctx.io_faults(p, faults)
                ctx.step_faults(p, ('crash', 'interrupt', 'memory',
                                    'powerloss'), 200, 1, 4)
                ctx.out_faults(p)
            ctx.say('phase', phase, p.name, plans)
            procs.append((p, plans))
        if nproc > 1 or len(procs[0][1]) > 1:
            ctx.nontrivial = True

        def main(p, plans):
            mod = w.start(p)
            if mod is None:
                # a restart by the user: the import is tried again
                mod = w.start(p)
                if mod is None:
                    return

            def work(ops):
                for n, inv in ops:
                    m = w.one(p, mod, n, inv)
                    if m is not None and mutate is not None:
                        mutate(m)
            for ops in plans[1:]:
                sim.spawn(p, lambda ops=ops: work(ops),
                          '%s.%d' % (p.name, plans.index(ops)))
            sim._draw_preempt()
            work(plans[0])
        ts = [sim.spawn(p, lambda p=p, plans=plans: main(p, plans))
              for p, plans in procs]
        run_all(ctx, ts)
        ctx.settle()
        if phase and ch.flip(1, 6, 'late-powerloss'):
            sim.fault('powerloss')
            sim.fs.power_loss()
            ctx.nontrivial = True
        ctx.say('files', cache_listing())
    sim.procs = []
    return asked


def cache_listing():
    import os
    if not os.path.isdir('cache'):
        return []
    return ['%s:%d' % (n, os.path.getsize('cache/' + n))
            for n in sorted(os.listdir('cache'))]


def run_all(ctx, ts):
    """Run; a violation raised inside a simulated thread is the run's."""
    sim = ctx.sim
    all_threads = sim.threads
    sim.run()
    for t in all_threads:
        if t.error is not None:
            raise_from(t)


def raise_from(t):
    if isinstance(t.error, core.Violation):
        raise t.error
    raise t.error.__class__, t.error, getattr(t, 'tb', None)


def final_ops(ctx, asked):
    ops = sorted(set(asked))
    if not ops:
        return [(1, 0), (2, 1)]
    out = []
    for o in ctx.ch.shuffled(ops, 'final-order')[:6]:
        out.append(o)
    return out


@scenario('C01', prepare)
def c01(ctx):
    w = World(ctx, True, False)
    asked = cache_phases(ctx, w, 2)
    w.final(final_ops(ctx, asked))


@scenario('C02', prepare)
def c02(ctx):
    w = World(ctx, False, True)
    asked = cache_phases(ctx, w, 2)
    w.final(final_ops(ctx, asked))
    # and a second start, which finds what the first one left
    w.final(final_ops(ctx, asked))


def scribble(ctx, m):
    """Change a returned matrix in place, as a caller may."""
    ch = ctx.ch
    n = m.shape[0]
    k = ch.pick(5, 'scribble')
    try:
        if k == 0:
            m[ch.pick(n, 'row'), ch.pick(n, 'col')] = \
                ch.between(2, 9, 'value')
        elif k == 1:
            m.fill(0)
        elif k == 2:
            m.row_swap(0, n - 1)
        elif k == 3:
            m.row_del(n - 1)
        else:
            for j in range(n):
                m[0, j] = m[0, j] * 3 + 1
    except (TypeError, AttributeError):
        ctx.count('refused-changes')
    ctx.count('changes')


@scenario('C03', prepare)
def c03(ctx):
    """Callers change what they were given; lookups stay exact."""
    ch, sim = ctx.ch, ctx.sim
    w = World(ctx, True, False)
    asked = []
    ctx.chunk()
    for phase in range(ch.between(1, 2, 'phases')):
        p = ctx.proc()
        sim.set_preempt((0, 200, 40)[ch.pick(3, 'preempt-style')])
        plans = []
        for t in range(ch.between(1, 3, 'threads')):
            ops = []
            for _ in range(ch.between(2, 7, 'ops')):
                ops.append((pick_n(ctx), ch.pick(2, 'inverse'),
                            ch.flip(1, 2, 'change')))
            asked.extend([(a, b) for a, b, _ in ops])
            plans.append(ops)
        if ch.flip(1, 4, 'faulty'):
            ctx.io_faults(p, ('error', 'interrupt'))
            ctx.step_faults(p, ('interrupt', 'memory'), 200)
        ctx.nontrivial = True
        ctx.say('phase', phase, p.name, plans)

        def main():
            mod = w.start(p) or w.start(p)
            if mod is None:
                return

            def work(ops):
                kept = []
                for n, inv, change in ops:
                    m = w.one(p, mod, n, inv)
                    if m is None:
                        continue
                    if change:
                        scribble(ctx, m)
                    else:
                        kept.append((m, n, inv))
                    core.pause()
                for m, n, inv in kept:
                    bad = wrong_matrix(m, n, inv)
                    if bad:
                        ctx.violate('handed-out-matrix-changed',
                                    'n=%d: %s' % (n, bad))
            for i, ops in enumerate(plans[1:]):
                sim.spawn(p, lambda ops=ops: work(ops),
                          '%s.%d' % (p.name, i + 1))
            sim._draw_preempt()
            work(plans[0])
        run_all(ctx, [sim.spawn(p, main)])
        ctx.settle()
    w.final(final_ops(ctx, asked))


# ------------------------------------------------------------ verdicts (C04)
import gen

ENGINES = ('internal_vts', 'internal_ts', 'isym.vts', 'isym.ts')


def ask(p, engine, parts, sym):
    """Put the query to one engine; the arguments are the caller's."""
    if engine.startswith('isym.'):
        mod = p.load('isym')
        x = sympy.Symbol(sym)
        args = [[gen.as_sympy(q, x) for q in part] for part in parts]
        return getattr(mod, engine[5:])(*args), args
    mod = p.load('uni_vts')
    args = [[list(q) for q in part] for part in parts]
    return getattr(mod, engine)(*args), args


def untouched(engine, parts, args, sym):
    if engine.startswith('isym.'):
        x = sympy.Symbol(sym)
        return args == [[gen.as_sympy(q, x) for q in part] for part in parts]
    return args == parts


class Judge(object):
    def __init__(self, ctx, errors=True):
        self.ctx = ctx
        self.errors = errors

    def query(self, p, engine, parts, sym='x'):
        ctx = self.ctx
        st, v = ctx.call(p, ask, p, engine, parts, sym)
        ctx.count('queries')
        if st == 'ok':
            verdict, args = v
            exp = gen.truth(parts)
            if verdict is not True and verdict is not False:
                ctx.violate('no-verdict', '%s%s answers %r' % (
                    engine, tuple(parts), verdict))
            if verdict != exp:
                ctx.violate('wrong-verdict', '%s%s answers %s' % (
                    engine, tuple(parts), verdict))
            if not untouched(engine, parts, args, sym):
                ctx.violate('arguments-changed', '%s changed its arguments '
                            '%s to %s' % (engine, parts, args))
            return True
        if st == 'err' and self.errors:
            ctx.violate('query-fails', '%s%s raises %s with nothing injected '
                        'into the call' % (engine, tuple(parts), describe(v)))
        return False


def pick_engine(ch):
    return ENGINES[ch.weighted((5, 2, 3, 1), 'engine')]


@scenario('C04', prepare)
def c04(ctx):
    ch, sim = ctx.ch, ctx.sim
    ctx.chunk()
    j = Judge(ctx)
    kin = gen.family(ch) if ch.flip(2, 5, 'kin') else None
    pool = [gen.kin_query(ch, kin) if kin else gen.query(ch, ctx.tier)]
    for _ in range(ch.between(3, 7, 'pool') if kin else
                   ch.between(1, 4, 'pool')):
        if kin:
            pool.append(gen.kin_query(ch, kin))
        elif ch.flip(1, 2, 'variant'):
            pool.append(gen.variant(ch, ch.of(pool, 'of')))
        elif ch.flip(1, 3, 'repeat'):
            pool.append(gen.repeat_query(ch))
        else:
            pool.append(gen.query(ch, ctx.tier))
    ctx.say('pool', pool)
    for phase in range(ch.between(1, 3, 'phases')):
        sim.set_preempt((0, 3000, 300)[ch.weighted((2, 3, 2),
                                                   'preempt-style')])
        if ch.flip(1, 10, 'diskfull'):
            sim.fs.full = True
            ctx.nontrivial = True
        procs = []
        for i in range(ch.between(1, 2, 'procs')):
            p = ctx.proc()
            plans = []
            for t in range(ch.between(1, 2, 'threads')):
                plans.append([(pick_engine(ch), pool[ch.pick(len(pool), 'q')],
                               ch.of(('x', 'y'), 'sym'))
                              for _ in range(ch.between(1, 4 if kin else 3,
                                                        'ops'))])
            ctx.io_faults(p, ('crash', 'powerloss', 'error', 'interrupt',
                              'memory'))
            ctx.step_faults(p, ('crash', 'powerloss', 'interrupt', 'memory'),
                            4000, 1, 4)
            ctx.say('phase', phase, p.name,
                    [[(e, pool.index(q), s) for e, q, s in x] for x in plans])
            procs.append((p, plans))
        if len(procs) > 1 or len(procs[0][1]) > 1:
            ctx.nontrivial = True

        def main(p, plans):
            st, v = ctx.call(p, p.load, 'isym')
            if st == 'err':
                ctx.violate('start-fails', 'importing isym fails: %s'
                            % describe(v))
            if st != 'ok':
                return

            def work(ops):
                for e, q, s in ops:
                    j.query(p, e, q, s)
            for i, ops in enumerate(plans[1:]):
                sim.spawn(p, lambda ops=ops: work(ops),
                          '%s.%d' % (p.name, i + 1))
            sim._draw_preempt()
            work(plans[0])
        run_all(ctx, [sim.spawn(p, lambda p=p, plans=plans: main(p, plans))
                      for p, plans in procs])
        ctx.settle()
    sim.procs = []
    p = ctx.proc()

    def last():
        p.load('isym')
        for q in pool:
            j.query(p, 'internal_vts', q)
    run_all(ctx, [sim.spawn(p, last)])


# ------------------------------------------------------- interruptions (C05)
@scenario('C05', prepare)
def c05(ctx):
    ch, sim = ctx.ch, ctx.sim
    ctx.chunk()
    j = Judge(ctx)
    w = World(ctx, True, True)
    p = ctx.proc()
    sim.set_preempt((0, 0, 500)[ch.pick(3, 'preempt-style')])

    def follow_up(op):
        # another call of the same kind, after the interrupted one
        if op[0] == 'matrix':
            return ('matrix', pick_n(ctx), ch.pick(2, 'inverse'))
        if op[0] == 'parse':
            return ('parse', gen.sequent(ch, 1))
        if ch.flip(1, 3, 'variant'):
            return ('query', op[1], gen.variant(ch, op[2]))
        return ('query', pick_engine(ch), gen.repeat_query(ch))

    plans = []
    for t in range(ch.between(1, 2, 'threads')):
        ops = []
        for _ in range(ch.between(2, 4, 'ops')):
            k = ch.weighted((4, 4, 4), 'op')
            if k == 0:
                op = ('matrix', pick_n(ctx), ch.pick(2, 'inverse'))
            elif k == 1:
                op = ('query', pick_engine(ch), gen.query(ch, ctx.tier))
            else:
                op = ('parse', gen.sequent(ch, 1))
            ops.append((op, ch.weighted((1, 4, 2, 2), 'how'), follow_up(op)))
        plans.append(ops)
    ctx.say(plans)

    def do(op):
        if op[0] == 'matrix':
            mod = w.start(p)
            if mod is not None:
                w.one(p, mod, op[1], op[2])
        elif op[0] == 'query':
            j.query(p, op[1], op[2])
        else:
            parse_one(ctx, p, op[1])

    def work(ops):
        for op, how, after in ops:
            limit = {'matrix': 60, 'query': 6000, 'parse': 120}[op[0]]
            if how == 1:
                ctx.step_faults(p, ('interrupt', 'memory'), limit, 1, 1)
            elif how == 2:
                ctx.io_faults(p, ('error', 'interrupt', 'memory'), 30, 1, 1)
            elif how == 3:
                ctx.out_faults(p, 8, 1, 1)
            do(op)
            ctx.disarm(p)
            do(op)           # the same once more, undisturbed
            do(after)

    def main():
        # an interrupted import means a restart, which C02 covers
        p.load('isym')
        p.load('grf_parser')
        for i, ops in enumerate(plans[1:]):
            sim.spawn(p, lambda ops=ops: work(ops), '%s.%d' % (p.name, i + 1))
        sim._draw_preempt()
        work(plans[0])
    run_all(ctx, [sim.spawn(p, main)])
    ctx.settle()


def parse_one(ctx, p, seq):
    text, exp = seq

    def parse():
        g = p.load('grf_parser')
        return [r for r, a, b in g.cmd.scanString(text)]
    st, v = ctx.call(p, parse)
    ctx.count('parses')
    if st == 'ok':
        if len(v) != 1:
            ctx.violate('parse-lost', '%d sequents found in %r' % (len(v),
                                                                   text))
        bad = gen.check_sequent(v[0], exp)
        if bad:
            ctx.violate('wrong-parse', '%s in %r' % (bad, text))
    elif st == 'err':
        ctx.violate('parse-fails', '%r raises %s with nothing injected into '
                    'the call' % (text, describe(v)))
