"""C10-C12: the algebra wrappers, the dialogue and Muchnik's procedure."""
import imp
import itertools
import re
from fractions import Fraction

import sympy

import core
import reference as R
from p_vts import run_all
from props import scenario, describe, VERIF

X, Y, Z = sympy.Symbol('x'), sympy.Symbol('y'), sympy.Symbol('z')
# written like x and y, and not the same
X2, Y2 = sympy.Symbol('x', positive=True), sympy.Symbol('y', positive=True)

_ready = []
_memo = {}


def memoise(name):
    """sympy is a dependency: its polynomial functions are memoised by their
    arguments."""
    real = getattr(sympy, name)

    def fn(*a, **k):
        if k:
            return real(*a, **k)
        try:
            key = (name,) + tuple((x.__class__, frozenset(x))
                                  if isinstance(x, set) else
                                  (x.__class__, x) for x in a)
            hash(key)
        except TypeError:
            return real(*a)
        if key not in _memo:
            if len(_memo) > 200000:
                _memo.clear()
            _memo[key] = real(*a)
        return _memo[key]
    fn.real = real
    return fn


def prepare():
    if _ready:
        return
    _ready.append(1)
    for n in ('LT', 'LC', 'degree', 'div', 'pdiv', 'diff'):
        setattr(sympy, n, memoise(n))


def real(name):
    return getattr(getattr(sympy, name), 'real', getattr(sympy, name))


def blist():
    m = imp.new_module('blist')
    execfile(VERIF + '/stubs/blist.py', m.__dict__)
    return m


def qe_proc(ctx):
    return ctx.proc('highschool_qe', stubs={'blist': blist()})


# ---------------------------------------------------------------------- C10
def _catalogue():
    """Small integer polynomials in x, y, z: the history is what varies."""
    out = []
    for i in range(28):
        e = sympy.Integer(i % 5 - 2)
        e = e + (1, -1, 2, -3)[i % 4] * X ** (i % 4) * Y ** (i // 3 % 3)
        if i % 3:
            e = e + (2, -1, 1)[i // 2 % 3] * X ** (i // 4 % 3) * Z ** (i % 2)
        if i % 7 == 0:
            e = e + Y
        out.append(sympy.expand(e))
    out += [sympy.expand(-e) for e in out[:6]]
    out += [sympy.expand(e + 1) for e in out[:6]]
    return out


CATALOGUE = []


def poly3(ch):
    if not CATALOGUE:
        CATALOGUE.extend(_catalogue())
    return CATALOGUE[ch.pick(len(CATALOGUE), 'poly')]


OPS = ('LT', 'LC', 'LS', 'degree', 'div', 'p_tail', 'e_var', 'has_variable',
       'pseudo_div', 'derivative', 'zero', 'sign')


def expected(op, v, args):
    """The values an algebra over v may give."""
    p = args[0] if args else None
    if op == 'LT':
        return [real('LT')(p, v)]
    if op == 'LC':
        return [real('LC')(p, v)]
    if op == 'LS':
        # by which order of the variables is not said
        syms = set(p.free_symbols)
        syms.add(v)
        return [real('LC')(p, *order) for order in
                itertools.permutations(sorted(syms, key=str))]
    if op == 'degree':
        return [real('degree')(p, v)]
    if op == 'div':
        return [real('div')(p, args[1], v)]
    if op == 'p_tail':
        return [sympy.expand(p - real('LT')(p, v))]
    if op == 'e_var':
        return [v]
    if op == 'has_variable':
        return [len(p.free_symbols) > 0]
    if op == 'pseudo_div':
        return [real('pdiv')(p, args[1], v)]
    if op == 'derivative':
        return [real('diff')(p, v)]
    if op == 'zero':
        return [sympy.Integer(0)]
    if op == 'sign':
        return [sympy.sign(p)]


_outcomes = {}


def outcome(op, v, args):
    key = (op, v, tuple(args))
    if key not in _outcomes:
        try:
            _outcomes[key] = ('ok', expected(op, v, args))
        except Exception, e:
            _outcomes[key] = ('raises', e.__class__)
    return _outcomes[key]


@scenario('C10', prepare)
def c10(ctx):
    ch, sim = ctx.ch, ctx.sim
    p = qe_proc(ctx)
    sim.set_preempt((0, 40, 8)[ch.pick(3, 'preempt-style')])
    pool = [poly3(ch) for _ in range(ch.between(2, 5, 'pool'))]
    ops_used = OPS
    wide = ch.flip(1, 5, 'wide')
    if wide:
        # more different questions of one kind than a small table would hold
        start, n = ch.pick(20, 'from'), ch.between(9, 30, 'pool')
        pool = (CATALOGUE[start:] + CATALOGUE[:start])[:n]
        ops_used = (ch.of(('LT', 'LC', 'degree', 'p_tail', 'derivative'),
                          'op'),)
    if ch.flip(1, 4, 'namesake'):
        # another symbol that is written the same way
        pool.append(pool[0].subs(X, X2))
        pool.append(pool[0].subs(Y, Y2))
    if ch.flip(1, 3, 'near'):
        pool.append(sympy.expand(-pool[0]))
        pool.append(sympy.expand(pool[0] + ch.of((1, -1), 'nudge')))
    if ch.flip(1, 3, 'zero'):
        pool.append(sympy.Integer(0))
    kinds = [(ch.of(('cached', 'cached', 'plain'), 'algebra'),
              ch.of((X, X, Y), 'over'))
             for _ in range(ch.between(1, 3, 'algebras'))]
    plans = []
    for t in range(ch.between(1, 2, 'threads')):
        ops = []
        if wide:
            # each once, and then some again
            ops = [(0, ops_used[0], [e], False) for e in pool]
        for _ in range(ch.between(4, 24, 'ops')):
            op = ch.of(ops_used, 'op')
            n = {'div': 2, 'pseudo_div': 2, 'e_var': 0, 'zero': 0}.get(op, 1)
            if op == 'sign':
                args = [sympy.Integer(ch.between(-3, 3, 'scalar'))]
            else:
                args = [pool[ch.pick(len(pool), 'arg')] for _ in range(n)]
            ops.append((ch.pick(len(kinds), 'which'), op, args,
                        ch.flip(1, 8, 'interrupt')))
        plans.append(ops)
    ctx.say('algebras', kinds, 'ops', [[(a, o, x) for a, o, x, _ in ops]
                                       for ops in plans])
    ctx.nontrivial = True
    algebras = []

    def use(i, op, args):
        return getattr(algebras[i], op)(*args)

    def judge(i, op, args, st, v):
        what = '%s%s over %s (%s)' % (op, tuple(args), kinds[i][1],
                                      kinds[i][0])
        exp = outcome(op, kinds[i][1], args)
        if st == 'ok':
            if exp[0] != 'ok':
                ctx.violate('wrong-result', '%s gives %s where %s is raised'
                            % (what, v, exp[1].__name__))
            if v not in exp[1] or \
                    isinstance(v, bool) != isinstance(exp[1][0], bool) or \
                    str(v) not in [str(e) for e in exp[1]]:
                ctx.violate('wrong-result', '%s gives %s' % (what, v))
            return True
        if st == 'err' and exp[0] == 'ok':
            ctx.violate('fails', '%s raises %s with nothing injected' %
                        (what, describe(v)))
        return False

    def work(ops):
        kept = []
        for i, op, args, cut in ops:
            ctx.count('operations')
            if cut:
                ctx.step_faults(p, ('interrupt', 'memory'), 30, 1, 1)
            st, v = ctx.call(p, use, i, op, args)
            if cut:
                ctx.disarm(p)
            if judge(i, op, args, st, v):
                kept.append((i, op, args, v))
        for i, op, args, v in kept:
            judge(i, op, args, 'ok', v)

    def main():
        cw = p.load('cachedsympywrapper')
        sw = p.load('sympywrapper')
        for k, v in kinds:
            algebras.append((cw.CachedSympyWrapper if k == 'cached'
                             else sw.SympyWrapper)(v))
        for i, ops in enumerate(plans[1:]):
            sim.spawn(p, lambda ops=ops: work(ops), '%s.%d' % (p.name, i + 1))
        sim._draw_preempt()
        work(plans[0])
    run_all(ctx, [sim.spawn(p, main)])


# ---------------------------------------------------------------------- C11
BAD = ('', '2', '-2', 'x', ' 1', '1 ', '00', '+1', '0.0', 'yes', '1,0', '-',
       '--1', '-0', '01', '10', 'None', '-1 ', '0\t')


class User(object):
    """Types an intended value for the polynomial the prompt names, after any
    number of slips."""

    def __init__(self, ctx, p, want, slips, real_dialogue, eof_at):
        self.ctx, self.p, self.want = ctx, p, want
        self.slips = dict(slips)
        self.real = real_dialogue
        self.eof_at = eof_at
        self.n = 0
        self.asked = []
        self.mark = 0

    def shown(self):
        t = ''.join(self.p.stdout[self.mark:])
        self.mark = len(self.p.stdout)
        return t

    def __call__(self):
        self.n += 1
        text = self.shown()
        name = None
        for s in self.want:
            if ('value for: %s:' % s) in text:
                name = s
        if name is None:
            self.ctx.violate('unclear-prompt', 'the value of no polynomial '
                             'is asked for in %r' % text[-200:])
        self.asked.append(name)
        if self.n == self.eof_at:
            self.ctx.sim.fault('stdin-eof')
            raise EOFError()
        left = self.slips.get(name, 0)
        if left:
            self.slips[name] = left - 1
            self.ctx.count('slips')
            k = self.n % (len(BAD) + 2)
            if k < len(BAD):
                return BAD[k]
            return '2' if self.real or k > len(BAD) else '-1'
        return str(self.want[name])


CONSTS = (Y, Z, Y - 1, Y + 1, Y * Z, Y ** 2 - 2, -Y, 2 * Y, Y - Z, Y ** 2,
          1 - Y)


@scenario('C11', prepare)
def c11(ctx):
    ch, sim = ctx.ch, ctx.sim
    p = qe_proc(ctx)
    ctx.nontrivial = True
    rounds = []
    for _ in range(ch.between(1, 3, 'rounds')):
        realq = ch.flip(1, 2, 'real')
        frag = ch.shuffled(CONSTS, 'frag')[:ch.between(0, 4, 'vars')]
        frag += [sympy.Integer(k) for k in
                 ch.shuffled((0, 1, -2, 3), 'scalars')[
                     :ch.between(1, 3, 'scalars')]]
        frag = ch.shuffled(frag, 'order')
        want = {}
        for c in frag:
            if c.free_symbols:
                want[str(c)] = ch.of((-1, 0, 1) if realq else (0, 1), 'value')
        slips = {}
        for s in sorted(want):
            slips[s] = ch.weighted((6, 3, 2, 1), 'slips')
            if slips[s] == 3:
                slips[s] = ch.of((3, 9, 400), 'many')
        mode = ch.weighted((5, 2, 1), 'mode')
        eof = 0
        if mode == 1:
            eof = 1 + ch.pick(6, 'eof-at')
        how = ch.weighted((2, 1, 1), 'how')
        rounds.append((realq, frag, want, slips, mode, eof, how))
    ctx.say([(r[0], r[1], sorted(r[2].items()), sorted(r[3].items()), r[4:])
             for r in rounds])
    PS = ([X - Y], [X - 1], [X * Y - 1], [X ** 2 - Y], [X + Y, X])

    def system():
        return list(PS[ch.pick(len(PS), 'system')])
    systems = [system() for _ in rounds]

    def diagram_ok(d, realq, frag, want, what):
        points = (0, 0.5, 1.0) if realq else (0,)
        if sorted(map(str, d.keys())) != sorted(set(map(str, frag))):
            ctx.violate('wrong-assignment', '%s assigns %s' % (
                what, sorted(map(str, d.keys()))))
        for c in frag:
            if c.free_symbols:
                v = want[str(c)]
            elif realq:
                v = int(sympy.sign(c))
            else:
                v = 0 if c == 0 else 1
            for pt in points:
                got = d[c].get(pt)
                if got is None or got[0] != v or got[1] != c:
                    ctx.violate('wrong-assignment', '%s: %s at %s is %s, '
                                'entered %s' % (what, c, pt, got, v))

    def shown_since(mark):
        return ''.join(p.stdout[mark:])

    def partial(m, realq, ps, assigner):
        f = m.real_partial if realq else m.complex_partial
        if assigner is None:
            return f(list(ps))
        return f(list(ps), assigner)

    def main():
        mu = p.load('muchnik')
        alg = (p.load('sympywrapper').SympyWrapper
               if ch.flip(1, 2, 'plain') else
               p.load('cachedsympywrapper').CachedSympyWrapper)(X)
        m = mu.Muchniker(alg)
        for (realq, frag, want, slips, mode, eof, how), ps in zip(rounds,
                                                                  systems):
            ctx.count('dialogues')
            what = ('real' if realq else 'complex') + ' dialogue'
            if how == 0:
                u = User(ctx, p, want, slips, realq, eof)
                u.shown()
                p.stdin = u
                if mode == 2:
                    ctx.step_faults(p, ('interrupt', 'memory'), 40, 1, 1)
                f = m.r_assignment_interactive if realq else \
                    m.c_assignment_interactive
                st, v = ctx.call(p, f, list(frag))
                ctx.disarm(p)
                p.stdin = None
                if st == 'ok':
                    diagram_ok(v, realq, frag, want, what)
                    if sorted(set(u.asked)) != sorted(want):
                        ctx.violate('not-asked', '%s asks for %s, not %s' % (
                            what, u.asked, sorted(want)))
                elif st == 'err':
                    if isinstance(v, core.Violation):
                        raise v
                    if not (isinstance(v, EOFError) and eof):
                        ctx.violate('dialogue-fails', '%s about %s raises %s '
                                    'with nothing injected' % (
                                        what, frag, describe(v)))
                continue
            # the whole partial procedure: by dialogue and by a preset
            # assignment
            vals = {}

            def preset(cf, realq=realq):
                d = mu.defaultdict(dict)
                for c in cf:
                    if c.free_symbols:
                        if str(c) not in vals:
                            vals[str(c)] = ch.of((-1, 0, 1) if realq else
                                                 (0, 1), 'value')
                        v = vals[str(c)]
                    elif realq:
                        v = sympy.sign(c)
                    else:
                        v = 0 if c == 0 else 1
                    for pt in ((0, 0.5, 1.0) if realq else (0,)):
                        d[c][pt] = (v, c)
                return d
            mark = len(p.stdout)
            a = ctx.call(p, partial, m, realq, ps, preset)
            first = shown_since(mark)
            u = User(ctx, p, vals, dict((k, slips.get(k, 1)) for k in vals),
                     realq, 0)
            u.shown()
            p.stdin = u
            mark = len(p.stdout)
            asg = None if how == 1 else (
                m.r_assignment_interactive if realq else
                m.c_assignment_interactive)
            b = ctx.call(p, partial, m, realq, ps, asg)
            p.stdin = None
            second = shown_since(mark)
            for st, v in (a, b):
                if st == 'err' and isinstance(v, core.Violation):
                    raise v
            if a[0] != b[0] or (a[0] == 'err' and
                                a[1].__class__ is not b[1].__class__):
                ctx.violate('partial-differs', '%s of %s with %s: preset %s, '
                            'dialogue %s' % (what, ps, vals, show(a),
                                             show(b)))
            if a[0] == 'ok' and table(first) != table(second):
                ctx.violate('partial-differs', '%s of %s with %s prints %r, '
                            'not %r' % (what, ps, vals, second, first))
    run_all(ctx, [sim.spawn(p, main)])


def show(r):
    return 'done' if r[0] == 'ok' else describe(r[1])


def table(text):
    """The rows of the diagram at the end of what was printed."""
    rows = []
    text = re.sub('value for: [^:]*:', '', text)
    for line in text.split('\n'):
        if 'bad value' in line or 'polies to inspect' in line:
            continue
        line = ' '.join(line.split())
        if line:
            rows.append(line)
    return rows


# ---------------------------------------------------------------------- C12
def uni(ch, cubic=False):
    """A polynomial in x alone."""
    k = ch.weighted((4, 3, 1, 3 if cubic else 1), 'form')
    if k == 3 and not cubic:
        return sympy.expand(ch.of((1, -1), 'lead') * X ** 3 +
                            ch.between(-1, 1, 'lin') * X +
                            ch.between(-1, 1, 'const'))
    if k == 3:
        a, b = ch.between(-2, 2, 'root'), ch.between(-1, 1, 'other')
        return sympy.expand(ch.of(((X - a) ** 3, (X - a) ** 2 * (X - b),
                                   -(X - a) ** 3, X ** 3 - a), 'cubic'))
    if k == 0:
        return ch.of((1, -1, 2), 'lead') * X + ch.between(-2, 2, 'const')
    if k == 1:
        return sympy.expand(ch.of((1, -1), 'lead') * X ** 2 +
                            ch.between(-2, 2, 'lin') * X +
                            ch.between(-2, 2, 'const'))
    return X ** 2 * ch.of((1, -1), 'lead')


PARA = (X - Y, X + Y, X * Y - 1, X * Y + 1, Y * X, X + 2 * Y, X ** 2 - Y,
        X ** 2 + Y, Y * X ** 2 - 1, X - Y ** 2)


def system(ch):
    """(kind, parts, has parameter)"""
    kind = ch.of(('real', 'real', 'complex'), 'kind')
    n = 3 if kind == 'real' else 2
    parts = [[] for _ in range(n)]
    if ch.flip(1, 3, 'parameter'):
        i = ch.pick(len(PARA), 'para')
        parts[ch.pick(n, 'part')].append(PARA[i])
        if i < 6 and ch.flip(1, 3, 'second'):
            parts[ch.pick(n, 'part')].append(
                ch.of((X, X - 1, X + Y, X + 1), 'other'))
        return kind, parts, True
    if kind == 'complex' and ch.flip(1, 3, 'shared-roots'):
        # the same roots, repeated differently, on both sides
        a = ch.between(-2, 2, 'root')
        b = a + ch.of((1, -1, 2), 'apart')
        parts[0].append(sympy.expand(
            ch.of((1, -1, 2), 'lead') *
            ch.of(((X - a) ** 3, (X - a) ** 2, (X - a) ** 3,
                   (X - a) ** 2 * (X - b), (X - a) * (X - b)), 'eq')))
        parts[1].append(sympy.expand(
            ch.of((X - a, X - a, X - b, (X - a) * (X - b), (X - a) ** 2),
                  'ne')))
        return kind, parts, False
    weight = 0
    for _ in range(ch.weighted((3, 3, 1), 'polys') + 1):
        q = uni(ch, kind == 'complex')
        at = ch.pick(n, 'part')
        # two cubics, or a cubic and two more: millions of remainders
        d = real('degree')(q, X)
        if weight + d > 5:
            break
        weight += d
        parts[at].append(q)
    return kind, parts, False


def cohen_can(s):
    """Real systems of at most two polynomials of degree at most two whose
    leading coefficients are numbers (others are F21 and F22, or slow)."""
    kind, parts, para = s
    ps = sum(parts, [])
    return kind == 'real' and len(ps) <= 2 and \
        not [q for q in ps if real('LC')(q, X).free_symbols or
             real('degree')(q, X) > 2]


def coeffs(p, yv):
    q = sympy.Poly(p.subs(Y, yv), X)
    return R.trim([Fraction(int(k.p), int(k.q))
                   for k in q.all_coeffs()][::-1])


def holds(kind, parts, yv):
    """Whether some x satisfies the system when y is yv."""
    c = [[coeffs(p, yv) for p in part] for part in parts]
    if kind == 'real':
        strict = c[0] + [[-k for k in p] for p in c[2]]
        if any(not p for p in strict):
            return False
        return R.satisfiable([], strict, [p for p in c[1] if p], [])
    eqs, nes = c
    if any(not q for q in nes):
        return False
    g = []
    for p in eqs:
        g = R.p_gcd(g, p)
    if not g:
        return True
    if len(g) == 1:
        return False
    prod = [Fraction(1)]
    for q in nes:
        prod = R.p_mul(prod, q)
    return bool(R.p_divmod(prod, R.squarefree(g))[1])


YS = [sympy.Rational(a, b) for a in (-3, -2, -1, 0, 1, 2, 3) for b in (1, 2)]
_truths = {}


def truths(kind, parts, para):
    key = (kind, str(parts))
    if key not in _truths:
        _truths[key] = [holds(kind, parts, y) for y in
                        (YS if para else [sympy.Integer(0)])]
    return _truths[key]


def dnf(kind, clauses, yv):
    for cl in clauses:
        vals = [[p.subs(Y, yv) for p in part] for part in cl]
        if kind == 'real':
            if all(v < 0 for v in vals[0]) and all(v == 0 for v in vals[1]) \
                    and all(v > 0 for v in vals[2]):
                return True
        elif all(v == 0 for v in vals[0]) and all(v != 0 for v in vals[1]):
            return True
    return False


KNOWN = (([[], [], [X * Y + 1]], sympy.Integer(0), 'F21'),
         ([[], [Y * X ** 2 - 1], []], sympy.Integer(1), 'F22'))


@scenario('C12', prepare)
def c12(ctx):
    ch, sim = ctx.ch, ctx.sim
    p = qe_proc(ctx)
    sim.set_preempt((0, 400, 40, 2000)[ch.pick(4, 'preempt-style')])
    pool = [system(ch) for _ in range(ch.between(2, 3, 'pool'))]
    shared = ch.flip(3, 4, 'one-procedure')
    algs = [ch.pick(3, 'algebra') for _ in range(ch.between(1, 2, 'algebras'))]
    cohen = ch.flip(1, 2, 'cohen')
    plans = []
    for t in range(ch.between(1, 2, 'threads')):
        ops = []
        for _ in range(ch.between(1, 3, 'ops')):
            s = pool[ch.pick(len(pool), 'which')]
            a = algs[ch.pick(len(algs), 'algebra')]
            if cohen_can(s) and cohen:
                a += 3
            cut = ch.flip(1, 3, 'interrupt') and \
                ch.of((150, 1000, 3000, 12000), 'within')
            ops.append((s, a, cut))
            if cut and ch.flip(2, 3, 'again'):
                s2 = pool[(pool.index(s) + 1) % len(pool)]
                ops.append((s2 if a < 3 or cohen_can(s2) else s, a, 0))
        plans.append(ops)
    known = ch.flip(1, 12, 'known')
    ctx.nontrivial = len(plans) > 1 or len(plans[0]) > 1
    ctx.say('systems', pool, 'plans', [[(pool.index(s), a, c)
                                        for s, a, c in x] for x in plans],
            'shared', shared)
    made = {}

    def procedure(a):
        if shared and a in made:
            return made[a]
        if a % 3 == 0:
            alg = p.load('sympywrapper').SympyWrapper(X)
        else:
            alg = p.load('cachedsympywrapper').CachedSympyWrapper(X)
        if a >= 3:
            m = p.load('cohenhorm').CohenHormander(alg)
        else:
            m = p.load('muchnik').Muchniker(alg)
        made[a] = m
        return m

    def solve(m, kind, parts):
        f = m.real_full if kind == 'real' else m.complex_full
        return f(*parts)

    def work(ops):
        for (kind, parts, para), a, cut in ops:
            ctx.count('eliminations')
            st, m = ctx.call(p, procedure, a)
            if st == 'err':
                ctx.violate('elimination-fails', 'preparing it raises %s '
                            'with nothing injected' % describe(m))
            if st != 'ok':
                continue
            mine = [list(x) for x in parts]
            said = sim.cur.said = []
            if cut:
                ctx.step_faults(p, ('interrupt', 'memory'), cut, 1, 1,
                                even=(2, 3))
                ctx.out_faults(p, 40, 1, 6)
            st, v = ctx.call(p, solve, m, kind, mine)
            if cut:
                ctx.disarm(p)
            what = '%s elimination of %s by %s' % (
                kind, parts, 'Cohen-Hormander' if a >= 3 else 'Muchnik')
            if a >= 3:
                ctx.count('by-cohen-hormander')
            if st == 'err':
                ctx.violate('elimination-fails', '%s raises %s with nothing '
                            'injected' % (what, describe(v)))
            if st != 'ok':
                continue
            if mine != parts:
                ctx.violate('arguments-changed', '%s changes its arguments '
                            'to %s' % (what, mine))
            exp = truths(kind, parts, para)
            # without a parameter the answer is the printed verdict, or
            # whether there is a diagram at all
            if not para and a >= 3:
                if bool(v) != exp[0] or bool(v) != dnf(kind, v, 0):
                    ctx.violate('wrong-verdict', '%s gives %s' % (what, v))
                continue
            if not para:
                verdict = [t.strip() for t in ''.join(said).split('\n')]
                verdict = [t for t in verdict if t in
                           ('Satisfiable', 'Unsatisfiabl', 'Unsatisfiable')]
                if len(verdict) != 1 or \
                        (verdict[0] == 'Satisfiable') != exp[0]:
                    ctx.violate('wrong-verdict', '%s prints %s' % (
                        what, verdict))
                continue
            for y, e in zip(YS, exp):
                if dnf(kind, v, y) != e:
                    ctx.violate('wrong-conditions', '%s gives %s, which is '
                                '%s at y = %s' % (what, v, not e, y))

    def main():
        p.load('qe_imports')
        for i, ops in enumerate(plans[1:]):
            sim.spawn(p, lambda ops=ops: work(ops), '%s.%d' % (p.name, i + 1))
        sim._draw_preempt()
        work(plans[0])
        if known:
            for parts, yv, id in KNOWN:
                st, m = ctx.call(p, procedure, 3)
                if st != 'ok':
                    break
                st, v = ctx.call(p, solve, m, 'real',
                                 [list(x) for x in parts])
                if st == 'err' or st == 'ok' and \
                        dnf('real', v, yv) != holds('real', parts, yv):
                    ctx.known[id] = 'Cohen-Hormander elimination of %s %s' % (
                        parts, 'raises' if st == 'err' else
                        'is wrong at y = %s' % yv)
    run_all(ctx, [sim.spawn(p, main)])
