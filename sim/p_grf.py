"""C13-C15: geometric relevance filtering and its benchmark runner, in a
simulated Sage session."""
import imp
import os
import re
from fractions import Fraction

import core
import fs
import reference as R
from p_vts import run_all
from props import scenario, describe, VERIF, REPO

_sage = []


def sage():
    """The stand-in for Sage (stateless but for its random stream)."""
    if not _sage:
        m = imp.new_module('minisage')
        with core.REAL_OPEN(VERIF + '/stubs/minisage.py') as f:
            exec compile(f.read(), VERIF + '/stubs/minisage.py', 'exec') \
                in m.__dict__
        _sage.append(m)
    return _sage[0]


class Stream(object):
    """One seeded stream behind every library the code under test takes
    random numbers from."""

    def __init__(self, seed):
        self.r = core.Rng(seed)

    def below(self, n):
        return self.r.below(n)

    def random(self):
        return (self.r.below(1 << 20) + 0.5) / (1 << 20)


def module(name, **k):
    m = imp.new_module(name)
    m.__dict__.update(k)
    return m


def random_module(rng):
    def uniform(a, b):
        a, b = float(a), float(b)
        x = a + (b - a) * rng.random()
        for e in (3, 7, 12, 20):        # a short one if there is one
            y = float(int(x * (1 << e))) / (1 << e)
            if min(a, b) < y < max(a, b):
                return y
        return x

    def choice(seq):
        return seq[rng.below(len(seq))] if len(seq) else seq[0]

    def shuffle(seq, random=None):
        for i in range(len(seq) - 1, 0, -1):
            j = rng.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]

    def sample(seq, k):
        seq = list(seq)
        shuffle(seq)
        return seq[:k]
    return module('random', random=rng.random, uniform=uniform, choice=choice,
                  randint=lambda a, b: a + rng.below(b - a + 1),
                  randrange=lambda a, b=None: rng.below(a) if b is None
                  else a + rng.below(b - a), seed=lambda *a: None,
                  shuffle=shuffle, sample=sample,
                  gauss=lambda m, s: m + s * (rng.random() * 4 - 2))


def fsolve_with(rng):
    """A numerical solver promises nothing: it may find a root, stop half way
    or wander off."""
    def fsolve(f, x, xtol=1e-3, **k):
        x = [float(v) for v in x]
        how = rng.below(6)
        if how == 3:
            return [v + (rng.random() - 0.5) * 4 for v in x]
        if how > 3:
            return x
        for _ in range(3 + 5 * (how > 0)):
            i = rng.below(len(x))
            y = float(f(x)[0])
            if abs(y) < 1e-12:
                break
            z = list(x)
            z[i] += 1e-4
            d = (float(f(z)[0]) - y) / 1e-4
            if abs(d) < 1e-6:
                continue
            x[i] -= max(-50.0, min(50.0, y / d))
        return [float('%.9g' % v) for v in x]
    return fsolve


def stubs(rng):
    import pyparsing
    sp = module('scipy')
    sp.optimize = module('scipy.optimize', fsolve=fsolve_with(rng))
    np = module('numpy', array=list, percentile=percentile,
                median=lambda v: percentile(v, 50), mean=lambda v:
                sum(v) / float(len(v)), inf=float('inf'), nan=float('nan'))
    s = module('sage')
    s.numerical = module('sage.numerical')
    s.numerical.optimize = module('sage.numerical.optimize',
                                  minimize=lambda *a, **k: None)
    s.rings = module('sage.rings')
    s.rings.polynomial = module('sage.rings.polynomial')
    s.rings.polynomial.real_roots = module('sage.rings.polynomial.real_roots')
    P = sage().Poly
    s.rings.polynomial.multi_polynomial_libsingular = module(
        'sage.rings.polynomial.multi_polynomial_libsingular',
        MPolynomial_libsingular=P)
    mpl = module('matplotlib')
    mpl.pyparsing_py2 = mpl.pyparsing = pyparsing
    return {'numpy': np, 'scipy': sp, 'sage': s, 'matplotlib': mpl,
            'random': random_module(rng)}


def percentile(v, q):
    v = sorted(v)
    if not v:
        raise IndexError('percentile of nothing')
    k = (len(v) - 1) * q / 100.0
    i = int(k)
    if i + 1 >= len(v) or v[i] == v[i + 1]:
        return v[i]
    return v[i] + (v[i + 1] - v[i]) * (k - i)


class Session(object):
    """A Sage session: one process, one name space."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = Stream(ctx.ch.pick(1 << 30, 'stream'))
        self.p = ctx.proc('GRF', stubs=stubs(self.rng))
        self.ns = None

    def start(self):
        ns = sage().session(self.rng)
        ns['__name__'] = '__main__'
        ns['__sim_step__'] = core.step
        ns['load'] = self.load
        self.ns = ns

    def load(self, name):
        exec core.code_for(REPO + '/GRF/' + name) in self.ns


# ------------------------------------------------------------- problems
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '=': '!=', '!=': '='}
OPS = ('>', '>=', '<', '<=')
NAMES = ('x', 'v_3', 'skoXC1', 't-1', 'A', 'sin', 'x0', 'x1', 'H0', 'e.p')
ALIKE = (('x', 'X', 'Xx'), ('a', 'A', 'aA'), ('x1', 'x10', 'x0'),
         ('x_1', 'x-1', 'x.1'), ('v', 'v_', 'v__'), ('e', 'E', 'e0'),
         ('x1', 'x0', 'x2'), ('t', 'tt', 'T'), ('and', 'And', 'or'))
RATS = [Fraction(a, b) for a, b in ((0, 1), (1, 1), (-1, 1), (2, 1), (-2, 1),
                                    (1, 2), (-1, 2), (3, 1), (3, 2), (-3, 1))]


def number(ch, q):
    """A constant in the input language."""
    if q < 0:
        k = ch.pick(2, 'minus')
        if k == 0 or q.denominator != 1:
            return '(- %s)' % number(ch, -q)
        return '~%d.' % -q.numerator
    if q.denominator == 1:
        return ('%d.', '%d.0')[ch.pick(2, 'dot')] % q.numerator
    if q.denominator == 2 and ch.flip(1, 2, 'decimal'):
        return ('%d.5', '%d.50')[ch.pick(2, 'zero')] % (q.numerator // 2)
    k = ch.of((1, 1, 3, 7, 50), 'expand')
    return '(/ %s %s)' % (number(ch, Fraction(k * q.numerator)),
                          number(ch, Fraction(k * q.denominator)))


def write(ch, p, names):
    """A text for the polynomial."""
    def mono(e, c):
        fs_ = []
        for i, k in enumerate(e):
            fs_ += [names[i]] * k
        neg = False
        if not fs_:
            return number(ch, c)
        if c == -1 and ch.flip(1, 2, 'neg'):
            neg = True
        elif c != 1:
            fs_.insert(0, number(ch, c))
        t = fs_[-1]
        for f in reversed(fs_[:-1]):
            t = '(* %s %s)' % (f, t)
        return '(- %s)' % t if neg else t
    terms = sorted(p.terms.items())
    if len(terms) > 1:
        k = ch.pick(len(terms), 'rotate')
        terms = terms[k:] + terms[:k]
    if not terms:
        return '0.'
    t = mono(*terms[-1])
    for e, c in reversed(terms[:-1]):
        if ch.flip(1, 3, 'sub'):
            t = '(- %s %s)' % (mono(e, c), negated(t))
        else:
            t = '(+ %s %s)' % (mono(e, c), t)
    return t


def negated(t):
    return '(- %s)' % t


def relation(ch, atom, names):
    p, op = atom
    k = ch.pick(3, 'sides')
    if k == 0:
        return '(%s %s 0.)' % (op, write(ch, p, names))
    # move some terms to the right
    left, right = p, p.ring(0)
    for e, c in sorted(p.terms.items())[:len(p.terms) // 2 + (k == 2)]:
        t = sage().Poly(p.ring, {e: c})
        left, right = left - t, right - t
    return '(%s %s %s)' % (op, write(ch, left, names), write(ch, right, names))


class Problem(object):
    def __init__(self, ants, succs, nv, exact, valid):
        self.ants, self.succs = ants, succs      # the last succedent: the goal
        self.nv, self.exact, self.valid = nv, exact, valid

    def text(self, ch, names, title):
        return '(sequent "%s" (antecedent %s) (succedent %s))' % (
            title, ' '.join([relation(ch, a, names) for a in self.ants]),
            ' '.join([relation(ch, a, names) for a in self.succs]))

    def __repr__(self):
        return '%s |- %s%s' % (
            ', '.join(['%s %s 0' % a for a in self.ants]),
            ', '.join(['%s %s 0' % a for a in self.succs]),
            {True: ' (valid)', False: ' (not valid)', None: ''}[self.valid])


def uni_poly(ch, exact):
    x = sage().ring(1).gen()
    p = x.ring(ch.of((1, 1, -1, 2), 'lead'))
    for _ in range(ch.weighted((6, 4, 1), 'factors') + 1):
        p = p * (x - ch.of(RATS, 'root'))
    if not exact and ch.flip(1, 2, 'irrational'):
        p = p * (x * x - ch.of((2, 3, 5), 'square'))
    elif ch.flip(1, 8, 'no-root'):
        p = p * (x * x + 1)
    return p


def coeffs(p):
    return p.univariate_polynomial().c


def uni_sat(atoms):
    """Is there a real x at which all atoms hold?"""
    parts = [[], [], [], []]
    for p, op in atoms:
        c = coeffs(p)
        if op in ('>', '>='):
            c = [-k for k in c]
        parts[{'<=': 0, '>=': 0, '<': 1, '>': 1, '=': 2, '!=': 3}[op]].append(
            c)
    return R.satisfiable(*parts)


def uni_problem(ch):
    exact = ch.flip(3, 4, 'exact') == 1
    for attempt in range(6):
        ants = [(uni_poly(ch, exact), ch.of(OPS, 'op'))
                for _ in range(ch.weighted((8, 6, 6, 3, 1), 'hyps'))]
        if ch.flip(1, 12, 'no-hyps'):
            ants = []
        elif not ants:
            ants = [(uni_poly(ch, exact), ch.of(OPS, 'op'))]
        if ch.flip(1, 4, 'equation'):
            ants.insert(ch.pick(len(ants) + 1, 'at'),
                        (uni_poly(ch, True), ch.of(('=', '!='), 'eqop')))
            if ch.flip(1, 3, 'second'):
                ants.append((uni_poly(ch, True), '='))
        goal = (uni_poly(ch, exact), ch.of(OPS, 'op'))
        if ants and ch.flip(1, 3, 'loose'):
            # a goal near a hypothesis
            p, op = ants[ch.pick(len(ants), 'near')]
            goal = (p if ch.flip(1, 2, 'same') else
                    p + (1 if op in ('>', '>=') else -1), op)
            if op in ('=', '!='):
                goal = (p, op)
        valid = not uni_sat(ants + [(goal[0], NEG[goal[1]])])
        if valid or attempt == 5 or ch.flip(1, 5, 'keep'):
            break
    pr = Problem(ants, [goal], 1, exact, valid)
    return spread(ch, pr)


def spread(ch, pr):
    """Some hypotheses as (negated) further succedents."""
    if len(pr.ants) > 1 and ch.flip(1, 3, 'succedents'):
        for _ in range(ch.between(1, 2, 'moved')):
            if len(pr.ants) > 1:
                p, op = pr.ants.pop(ch.pick(len(pr.ants), 'move'))
                pr.succs.insert(ch.pick(len(pr.succs), 'to'), (p, NEG[op]))
    return pr


def bi_problem(ch):
    """Valid by construction, with hypotheses that are not needed."""
    nv = 3 if ch.flip(1, 3, 'third') else 2
    r = sage().ring(nv)
    x, y = r.gens()[:2]
    if ch.flip(1, 2, 'swap'):
        x, y = y, x
    a, b = ch.of(RATS[:6], 'a'), ch.of(RATS[:6], 'b')
    core_ = [
        ([(x - a, '>'), (y - b, '>')], (x + y - a - b, '>')),
        ([(x, '>='), (y, '>=')], (x * y, '>=')),
        ([(x - y, '='), (y - a, '>')], (x - a, '>')),
        ([(y - x * x, '>=')], (y, '>=')),
        ([(y - x * x - a, '>')], (y - a + 1, '>')),
        ([(x * x + y * y - 1, '<')], (x - 2, '<')),
        ([(x * y - 1, '>'), (x, '>')], (y, '>')),
        ([(x - a, '='), (x - y - b, '=')], (x + y - (a + a - b), '=')),
        ([(x, '>'), (y, '>')], (x * y + 1, '>')),
        ([(x - a, '>=')], (x - a + 1, '>')),
        ([(x - y, '>'), (y - a, '>=')], (x - a, '>=')),
        ([(x - a, '='), (y - b, '=')], (x * y - a * b, '=')),
        ([(x - y, '<='), (y - x, '<=')], (y - x, '>=')),
        ([(x - 1, '<'), (x + 1, '>'), (y - x, '>')], (y + 1, '>')),
        ([], (x * x + y * y + 1, '>')),
        ([(x * x - 4, '<'), (y - x - 2, '>=')], (y, '>')),
        ([(x + y - a, '='), (x - y, '=')], (2 * x - a, '=')),
        ([(x - y - a, '='), (y - b, '=')], (x - a - b, '>=')),
        ([(x - y * y, '='), (y - a, '=')], (x - a * a, '=')),
        ([(x - y, '='), (x * y - 1, '>')], (x * x - 1, '>')),
    ]
    ants, goal = core_[ch.pick(len(core_), 'core')]
    ants = list(ants)
    more = [(x - b, '>'), (y + a, '<='), (x + y - 1, '<'), (y - 2, '<'),
            (x * x - y - 1, '>'), (x + 3, '>='), (x - y + a, '!='),
            (x * y - 2, '<'), (y + 4, '>'), (2 * x - y, '>=')]
    if nv == 3:
        z = r.gens()[2]
        more += [(z, '>'), (z - 1, '<='), (z - x, '>'), (z - a, '=')]
    for _ in range(ch.between(nv - 2, 3, 'more')):
        m = more[ch.pick(len(more), 'extra')]
        if m not in ants:
            ants.insert(ch.pick(len(ants) + 1, 'at'), m)
    if nv == 3 and not [1 for p, _ in ants if p.degree(r.gens()[2]) > 0]:
        ants.append((r.gens()[2] - a, '>'))
    valid = True
    if ants and ch.flip(1, 6, 'drop'):
        # perhaps not valid any more
        ants.pop(ch.pick(len(ants), 'dropped'))
        valid = None
    if not ants and ch.flip(1, 2, 'some'):
        ants.append((x + 1, '>'))
    return spread(ch, Problem(ants, [goal], nv, False, valid))


GRID = [Fraction(n, d) for n, d in (
    (-4, 1), (-3, 1), (-2, 1), (-3, 2), (-1, 1), (-4, 7), (-1, 2), (-1, 7),
    (0, 1), (1, 7), (1, 2), (4, 7), (1, 1), (3, 2), (2, 1), (5, 2), (3, 1),
    (5, 1))]


def holds(v, op):
    return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '=': v == 0,
            '!=': v != 0}[op]


def refuted(pr, kept, goal):
    """A reason why the kept hypotheses do not imply the goal, or None."""
    neg = (goal[0], NEG[goal[1]])
    if pr.nv == 1:
        if pr.exact:
            return 'some x' if uni_sat(kept + [neg]) else None
        if [1 for p, op in kept + [neg] if op == '=']:
            return None
        strict = [(p, op[0] if op != '!=' else op)
                  for p, op in kept + [neg]]
        return 'an interval' if uni_sat(strict) else None
    if [1 for p, op in kept + [neg] if op == '=']:
        return None
    atoms = [(p, op[0] if op != '!=' else op) for p, op in kept + [neg]]
    gens = atoms[0][0].ring.gens()
    zs = GRID[2::6] if pr.nv == 3 else [Fraction(0)]
    for a in GRID:
        for b in GRID:
            for c in zs:
                d = dict(zip(gens, (a, b, c)))
                for p, op in atoms:
                    if not holds(p.substitute(d), op):
                        break
                else:
                    return 'all points near %s' % ([str(v) for v in
                                                    (a, b, c)[:pr.nv]],)
    return None


# ------------------------------------------------------------- the user
class User(object):
    """Answers the dialogue of an interactive run; keeps track of which
    hypothesis each number means."""

    def __init__(self, ctx, n, eof):
        self.ctx = ctx
        self.left = list(range(n))
        self.chosen = []
        self.auto = False
        self.asked = 0
        self.eof = eof

    def __call__(self):
        ch = self.ctx.ch
        self.asked += 1
        if self.auto:
            self.ctx.violate('asked-again', 'a question after GO')
        if self.asked == self.eof:
            self.ctx.sim.fault('stdin-eof')
            raise EOFError()
        k = ch.weighted((6, 4, 2, 1), 'answer') if self.asked < 12 else 1
        if k == 0 and self.left:
            i = ch.pick(len(self.left), 'H')
            self.chosen.append(self.left.pop(i))
            return ('%d', ' %d', '%d ')[ch.pick(3, 'typed')] % i
        if k <= 1:
            self.auto = True
            return ch.of(('GO', 'go', 'Go'), 'go')
        if k == 2:
            return ch.of(('s', 'S', 'b', 'B', 'p', 'P'), 'ask')
        return ch.of(('', 'x', '-1', '99', '1.5', 'g o', 'help', '0x1'),
                     'slip')


# ------------------------------------------------------------- C14 and C15
def direct(ns, pr, ch, kw):
    """Asks the decision procedure itself."""
    d = ns['RCF_GD_Decide'](pr.nv, num_sps=ch.between(1, 3, 'num-sps'))
    Atom, R_ = ns['RCF_Atom'], d.q.R

    def atom((q, op)):
        t = R_(0)
        for e, c in sorted(q.terms.items()):
            m = R_(c)
            for g, n in zip(d.q.x, e):
                m = m * g ** n
            t = t + m
        return Atom(t, op, R_(0))
    hyps = [atom(a) for a in pr.ants]
    moved = [atom((q, NEG[op])) for q, op in pr.succs[:-1]]
    if ch.flip(1, 2, 'at-once') and hyps + moved:
        d.assert_hyps(*(hyps + moved))
    else:
        for h in hyps + moved:
            d.assert_hyps(h)
    d.assert_goal(atom(pr.succs[-1]))
    if ch.flip(2, 3, 'partial'):
        kw['partial'] = True
    d.check(**kw)
    return {'hide_antecedent': [i for i, h in enumerate(hyps)
                                if [1 for g in d.hyps if g is h]],
            'hide_succedent': [i for i, h in enumerate(moved)
                               if [1 for g in d.hyps if g is h]]}


def session(ctx, soundness, progress):
    ch, sim = ctx.ch, ctx.sim
    S = Session(ctx)
    p = S.p
    ctx.nontrivial = True
    jobs = []
    for i in range(ch.between(1, 3, 'jobs')):
        pr = bi_problem(ch) if ch.flip(2, 5, 'plane') else uni_problem(ch)
        names = ch.shuffled(NAMES, 'names')[:pr.nv]
        if ch.flip(1, 3, 'alike'):
            names = ch.shuffled(ch.of(ALIKE, 'which'), 'names')[:pr.nv]
        if pr.ants and ch.flip(1, 5, 'twice'):
            pr.ants.insert(ch.pick(len(pr.ants) + 1, 'at'),
                           pr.ants[ch.pick(len(pr.ants), 'copy')])
        title = ch.of((' problem ', 'a >= 0, b ==> c', 'x ^ 2', ''), 'title') \
            + str(i)
        jobs.append((pr, pr.text(ch, names, title), title,
                     ch.weighted((5, 2, 1, 1, 1, 2), 'how'),
                     ch.flip(1, 3, 'interactive'),
                     ch.weighted((6, 1, 1, 1, 1), 'fault'),
                     ch.flip(1, 2, 'outfile')))
        ctx.say('problem', pr, 'how', jobs[-1][3:])

    def check(what, pr, text, title, res, user):
        """res: (indices of hidden antecedents, of hidden succedents)"""
        hid_a, hid_s = res
        for idx, n, side in ((hid_a, len(pr.ants), 'antecedent'),
                             (hid_s, len(pr.succs), 'succedent')):
            if len(set(idx)) != len(idx) or \
                    [i for i in idx if not 0 <= i < n]:
                ctx.violate('wrong-names', '%s hides %s %s of %d in %s' % (
                    what, side, idx, n, text))
        if len(pr.succs) - 1 in hid_s:
            ctx.violate('goal-hidden', '%s hides the goal of %s' % (what,
                                                                    text))
        kept = [a for i, a in enumerate(pr.ants) if i not in hid_a] + \
            [(q, NEG[op]) for i, (q, op) in enumerate(pr.succs[:-1])
             if i not in hid_s]
        # numbers of the dialogue: antecedents first, then the succedents
        # before the goal, last one first
        n = len(pr.ants)
        order = [('a', i) for i in range(n)] + \
            [('s', i) for i in range(len(pr.succs) - 2, -1, -1)]
        if what == 'RCF_GD_Decide.check':
            order = [('a', i) for i in range(n)] + \
                [('s', i) for i in range(len(pr.succs) - 1)]
        for h in (user.chosen if user else []):
            side, i = order[h]
            if i in (hid_a if side == 'a' else hid_s):
                ctx.violate('choice-lost', '%s hides hypothesis %s%d, which '
                            'the user had promoted, in %s' % (what, side, i,
                                                              text))
        why = refuted(pr, kept, pr.succs[-1])
        if why:
            ctx.violate('unsound', '%s keeps %s, which does not imply %s %s '
                        '0 (%s), in %s' % (
                            what, ['%s %s 0' % a for a in kept],
                            pr.succs[-1][0], pr.succs[-1][1], why, text))
        ctx.count('hidden', len(hid_a) + len(hid_s))

    def failed(what, pr, text, e):
        if isinstance(e, core.Violation):
            raise e
        if str(e).startswith('Counterexample'):
            ctx.count('counterexamples')
            if pr.valid and progress:
                ctx.violate('false-counterexample', '%s reports %s for the '
                            'valid %s' % (what, str(e)[:200], text))
            return
        if progress:
            ctx.violate('run-fails', '%s raises %s with nothing injected for '
                        '%s' % (what, describe(e), text))

    def main():
        S.start()
        S.load('grf.sage')
        S.load('smt2.py')
        shared = [None]
        for i, (pr, text, title, how, inter, fault, out) in enumerate(jobs):
            ctx.count('problems')
            user = None
            n = len(pr.ants) + len(pr.succs) - 1
            if inter:
                user = User(ctx, n, 1 + ch.pick(3, 'eof-at') if fault == 1
                            else 0)
            p.stdin = user
            if fault == 2:
                ctx.step_faults(p, ('interrupt', 'memory'), 30000, 1, 1)
            elif fault == 3:
                ctx.io_faults(p, ('error', 'interrupt', 'memory'), 12, 1, 1)
            elif fault == 4:
                ctx.out_faults(p, 200, 1, 1)
            del p.stdout[:]
            k, eps = ch.of((25, 0, 3), 'k'), ch.of((0.1, 2, 0.001), 'eps')
            if how == 0:
                what = 'grf_on_file'
                # the same files may have served an earlier problem
                at = ch.pick(2, 'file')
                fs.spit('in%d.smt' % at, text)
                kw = {'k': k, 'epsilon': eps, 'interactive': bool(inter)}
                if out:
                    kw['outfile'] = 'out%d' % at
                st, v = ctx.call(p, lambda: S.ns['grf_on_file'](
                    'in%d.smt' % at, **kw))
            elif how == 5:
                what = 'RCF_GD_Decide.check'
                st, v = ctx.call(p, lambda: direct(
                    S.ns, pr, ch, {'k': k, 'epsilon': eps,
                                   'interactive': bool(inter)}))
            else:
                what = 'processCommands'
                ParseSMT, SMTContext = S.ns['ParseSMT'], S.ns['SMTContext']

                def run():
                    if shared[0] is None or how == 1:
                        shared[0] = ParseSMT(k=k, epsilon=eps,
                                             interactive=bool(inter))
                    P = shared[0]
                    if how == 3 and not inter:
                        P.clearContext()
                        P.context.interactive = False
                    if how == 4:
                        c = SMTContext(k=k, epsilon=eps,
                                       interactive=bool(inter))
                        return P.processCommands(text, c).hiding_result
                    P.context.interactive = bool(inter)
                    return P.processCommands(text).hiding_result
                st, v = ctx.call(p, run)
            ctx.disarm(p)
            p.stdin = None
            shown = ''.join(p.stdout)
            if st == 'err':
                if user is not None and user.asked == user.eof and user.eof \
                        and isinstance(v, EOFError):
                    continue
                failed(what, pr, text, v)
            if st != 'ok':
                continue
            if how == 0:
                m = re.findall(
                    r'^\("(.*)" \(((?:hide_antecedent_\d+ ?)*)\) '
                    r'\(((?:hide_succedent_\d+ ?)*)\)\)$', shown, re.M)
                if len(m) != 1:
                    ctx.violate('no-result', '%s of %s prints %s' % (
                        what, text, m))
                res = [[int(w.split('_')[2]) for w in part.split()]
                       for part in m[0][1:]]
                line = '("%s" (%s) (%s))' % m[0]
                if m[0][0] != title:
                    ctx.violate('wrong-names', 'result for %r, not %r' % (
                        m[0][0], title))
                if tuple(v) != (len(res[0]), len(res[1])):
                    ctx.violate('wrong-count', '%s of %s returns %s and '
                                'prints %s' % (what, text, v, line))
                if out:
                    got = fs.slurp('out%d' % at)
                    if got != line:
                        ctx.violate('wrong-file', '%s of %s writes %r and '
                                    'prints %r' % (what, text, got, line))
            else:
                if not isinstance(v, dict):
                    ctx.violate('no-result', '%s of %s gives %s' % (
                        what, text, v))
                res = [list(v['hide_antecedent']), list(v['hide_succedent'])]
            ctx.count('results')
            if soundness:
                check(what, pr, text, title, res, user)
    run_all(ctx, [sim.spawn(p, main)])
    ctx.settle()


@scenario('C14')
def c14(ctx):
    session(ctx, True, False)


@scenario('C15')
def c15(ctx):
    session(ctx, False, True)


# ------------------------------------------------------------------- C13
class Child(object):
    """A simulated child process of the benchmark runner."""

    def __init__(self, world, target, args):
        self.world, self.target, self.args = world, target, args
        self.state = 'new'
        self.pid = None

    def start(self):
        w = self.world
        self.state = 'running'
        w.children.append(self)
        self.no = len(w.children) - 1
        self.pid = 1000 + self.no
        self.began = w.now()
        self.plan = w.plan(self.no)
        self.ends = self.began + self.plan[0]
        alive = [c for c in w.children if c.state == 'running']
        w.most = max(w.most, len(alive))

    def is_alive(self):
        self.world.settle()
        return self.state == 'running'

    def terminate(self):
        self.world.settle()
        if self.state == 'running':
            self.state = 'terminated'

    def join(self, timeout=None):
        w = self.world
        if self.state == 'running':
            t = self.ends if timeout is None else min(self.ends, w.now() +
                                                      timeout)
            w.sim.clock = max(w.sim.clock, t)
        w.settle()

    @property
    def exitcode(self):
        return None if self.state == 'running' else \
            -15 if self.state == 'terminated' else \
            1 if self.plan[1] is None else 0


class Bench(object):
    def __init__(self, ctx, rng):
        self.ctx, self.sim, self.rng = ctx, ctx.sim, rng
        self.children = []
        self.most = 0
        ch = ctx.ch
        self.slow = ch.weighted((3, 2, 1), 'slow')      # how many overrun
        self.deaths = ch.flip(1, 4, 'deaths')
        self.edge = ch.flip(1, 3, 'edge')
        self.lag = ch.weighted((3, 2, 1), 'lag')
        self.active = None
        self.due = 0

    def now(self):
        return self.sim.clock

    def plan(self, no):
        """(how long it runs, its result or None when it dies without one)"""
        r = self.rng
        k = r.below(20)
        if k < (0, 2, 12)[self.slow]:
            d = 1800.0 + r.random() * (5, 5000)[r.below(2)] + 0.02
            if r.below(3) == 0:
                d = 1e9
        elif self.edge and k == 13:
            d = 1800.0 - r.random() * 0.1
        elif k == 14:
            d = 0.0
        else:
            d = r.random() * (0.05, 60.0, 1500.0)[r.below(3)]
        res = (r.below(6), r.below(3))
        if self.deaths and r.below(12) == 0:
            res = None
            self.sim.fault('child-death')
        return d, res

    def settle(self):
        """Children whose time has come end now."""
        for c in self.children:
            if c.state == 'running' and c.ends <= self.now():
                c.state = 'finished'
                self.due += 1
                if c.plan[1] is None:
                    continue
                self.active = c
                try:
                    c.target(*c.args)
                finally:
                    self.active = None

    def sleep(self, d):
        """A sleep lasts at least as long as asked for; on a busy machine,
        much longer."""
        t = self.now() + float(d)
        run = [c for c in self.children if c.state == 'running']
        if self.due:
            self.due -= 1       # the runner has something to do first
        else:
            # nothing happens until the next child ends or is due to be ended
            nxt = [x for x in [c.ends for c in run] +
                   [c.began + 1800.0 for c in run
                    if not hasattr(c, 'late')]]
            if nxt and min(nxt) > t:
                t = min(nxt) + self.rng.random() * (0.01, 0.01, 3.0)[self.lag]
        if self.lag == 2 and self.rng.below(40) == 0:
            t += self.rng.random() * 900
            self.sim.fault('stall')
        self.sim.clock = t
        core.step()
        self.settle()
        for c in run:
            if c.state == 'running' and c.began + 1800.0 < t and \
                    not hasattr(c, 'late'):
                c.late = True
                self.due += 1

    def grf_on_file(self, smt_file, k=25, epsilon=0.1, interactive=True,
                    outfile=None):
        c = self.active
        c.given = (smt_file, k, epsilon)
        return c.plan[1]


@scenario('C13')
def c13(ctx):
    ch, sim = ctx.ch, ctx.sim
    rng = Stream(ch.pick(1 << 30, 'stream'))
    w = Bench(ctx, rng)
    names = ['/data/p%02d.smt' % i for i in range(30)]
    st = stubs(rng)
    mp = module('multiprocessing')

    class Manager(object):
        def dict(self):
            return {}
    mp.Manager = Manager
    mp.Process = lambda target=None, args=(), **k: Child(w, target,
                                                         tuple(args))
    st['multiprocessing'] = mp
    st['glob'] = module('glob', glob=lambda pattern: list(names))
    st['time'] = module('time', time=lambda: w.now(), sleep=w.sleep)
    p = ctx.proc('GRF', stubs=st)
    ctx.nontrivial = True
    ctx.say('bench slow', w.slow, 'deaths', w.deaths, 'lag', w.lag)
    ns = sage().session(rng)
    ns['__name__'] = '__main__'
    ns['__sim_step__'] = core.step

    def load(name):
        if name == 'smt2.py':
            ns['grf_on_file'] = w.grf_on_file
    ns['load'] = load
    err = []

    class Stderr(object):
        def write(self, t):
            err.append(t)

        def flush(self):
            pass
    import sys
    sysm = module('sys', stderr=Stderr(), stdout=sys.stdout,
                  __stdout__=sys.stdout, argv=[''], exit=sys.exit,
                  maxint=sys.maxint)
    p.modules['sys'] = sysm

    def main():
        fs.spit('test.csv', 'old\n')
        return ctx.call(p, lambda: exec_(REPO + '/GRF/test.sage', ns))
    t = sim.spawn(p, main)
    run_all(ctx, [t])
    ctx.settle()
    status, v = t.result
    kids = w.children
    ctx.count('trials', len(kids))
    ctx.count('simulated-hours', int((sim.clock - sim.t0) / 3600))
    cores, total = ns.get('Cores', 30), ns.get('param_samples', 180) * len(
        ns.get('Files_Indices', [0]))
    limit = ns.get('Timeout', 1800)
    if w.lag < 2 and sim.clock - sim.t0 > \
            limit * (total / float(cores) + 1) + 60:
        ctx.violate('no-progress', 'the benchmark takes %d simulated s' % (
            sim.clock - sim.t0))
    if w.most > cores:
        ctx.violate('too-many', '%d children at once' % w.most)
    rows = [l for l in fs.slurp('test.csv').split('\n')
            if l and not l.startswith('#')]
    dead = [c for c in kids if c.state == 'finished' and c.plan[1] is None]
    if status != 'ok':
        if dead and isinstance(v, KeyError):
            ctx.known['F20'] = 'a child that ends without a result ends the ' \
                'whole benchmark with KeyError'
        else:
            ctx.violate('runner-fails', '%s (%d trials died)' % (
                describe(v), len(dead)))
    elif len(kids) != total:
        ctx.violate('trials-lost', '%d trials started, not %d' % (len(kids),
                                                                  total))
    # which row belongs to which child: by its parameters
    want = {}
    for c in kids:
        prm = c.args[0]
        key = '%s,%s,%s' % (prm.file_id, prm.samples, prm.epsilon)
        want.setdefault(key, []).append(c)
    seen = {}
    for r in rows:
        f = r.split(',')
        if len(f) != 5:
            ctx.violate('bad-row', repr(r))
        seen.setdefault(','.join(f[:3]), []).append(f[3:])
    for key in sorted(seen):
        if key not in want or len(seen[key]) > len(want[key]):
            ctx.violate('row-invented', '%s: %s' % (key, seen[key]))
        if len(want[key]) > 1:
            continue
        c, (el, hides) = want[key][0], seen[key][0]
        if c in dead and el != 'NaN':
            if hides != 'NaN':
                ctx.violate('row-invented', 'trial %s died and has the row '
                            '%s' % (c.no, (el, hides)))
            ctx.count('died')
        elif el == 'NaN' or hides == 'NaN':
            if c.state == 'running':
                ctx.violate('not-terminated', 'trial %s timed out and still '
                            'runs' % c.no)
            if c.ends - c.began < limit:
                # it had ended in time; only a stall can excuse the runner
                if not w.lag == 2 and c.ends - c.began < limit - 1:
                    ctx.violate('false-timeout', 'trial %s took %s s' % (
                        c.no, c.ends - c.began))
        else:
            if c.state != 'finished' or c.plan[1] is None:
                ctx.violate('row-invented', 'trial %s is %s and has the row '
                            '%s' % (c.no, c.state, (el, hides)))
            if int(hides) != sum(c.plan[1]):
                ctx.violate('wrong-result', 'trial %s hides %s, row says %s'
                            % (c.no, sum(c.plan[1]), hides))
            if w.lag < 2 and float(el) > c.plan[0] + 3:
                ctx.violate('wrong-time', 'trial %s ran %s s, row says %s' % (
                    c.no, c.plan[0], el))
            if float(el) < c.plan[0] - 1e-6:
                ctx.violate('wrong-time', 'trial %s ran %s s, row says %s' % (
                    c.no, c.plan[0], el))
        if getattr(c, 'given', None) is not None and c.given != (
                c.args[0].smt_file, c.args[0].samples, c.args[0].epsilon):
            ctx.violate('wrong-parameters', 'trial %s ran with %s' % (
                c.no, c.given))
    if status == 'ok':
        lost = [k for k in want if len(seen.get(k, [])) < len(want[k])]
        if lost:
            ctx.violate('row-lost', 'no row for %s' % lost[:3])
        if [c for c in kids if c.state == 'running']:
            ctx.violate('left-running', 'children still run at the end')


def exec_(path, ns):
    exec core.code_for(path) in ns
