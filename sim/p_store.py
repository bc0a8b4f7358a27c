"""C06, C07: the example store; C09: the batch checker that reads it."""
import os
import pickle
import re

import sympy

import core
import fs
import gen
import reference
from p_vts import run_all, prepare
from props import scenario, describe

JUNK = ('', '\n', '; trace\n', ' ) ( ', 'x ', '(antecedent)')
X = sympy.Symbol('x')
SRC = 'GRF/Examples/MetiTarski'
NAMES = ('b-1.trace', 'a.trace', 'Chua-1.trace', 'exp 2.trace', 'n')


def uni(rel):
    """The relation as it must be stored: one variable, right side zero."""
    e = rel.lhs - rel.rhs
    for s in sorted(e.free_symbols, key=str):
        e = e.subs(s, X)
    return rel.__class__(e.expand(), 0)


def relation(ch):
    return [ch.of(gen.RELS, 'rel'), ch.of(('x', 'y', 'skoXC1', 'z'), 'var'),
            ch.of(('x', 'y', 'skoXC1', 'z'), 'var2'), ch.pick(5, 'shape'),
            ch.between(0, 9, 'a'), ch.between(1, 9, 'b')]


def rendered(spec):
    """A relation sympy keeps as one, with small exact coefficients."""
    (op, cls), v, w, k, a, b = spec
    sv, sw = sympy.Symbol(v), sympy.Symbol(w)
    if k == 0:
        t, e = '(+ %s %d)' % (v, a), sv + a
        u, f = '%d' % b, sympy.Integer(b)
    elif k == 1:
        t, e = '(* %d (* %s %s))' % (b, v, w), b * sv * sw
        u, f = '%d.' % a, sympy.Integer(a)
    elif k == 2:
        t, e = '(- (* %s %s) %d)' % (v, v, a), sv ** 2 - a
        u, f = '(* -%d %s)' % (b, w), -b * sw
    elif k == 3:
        t, e = '(/ (+ %s -%d) %d)' % (v, a, b), (sv - a) / sympy.Integer(b)
        u, f = '(* %s (+ %s 1))' % (w, w), sw * (sw + 1)
    else:
        t, e = '%d' % a, sympy.Integer(a)
        u, f = '(- %s)' % v, -sv
    r = cls(e, f)
    if not hasattr(r, 'lhs'):
        return '(> x %d)' % a, sympy.Gt(X, a)
    return '(%s %s %s)' % (op, t, u), r


def between(ch):
    """What stands between sequents; now and then a lot of white space."""
    if ch.flip(1, 14, 'far'):
        return ch.of(('\n', ' ', ' \n'), 'space') * ch.of(
            (2500, 4500, 9000, 35000), 'apart')
    return ch.of(JUNK, 'junk')


def source_spec(ch, many=3):
    return [(between(ch),
             [relation(ch) for _ in range(ch.between(0, 3, 'ante'))],
             [relation(ch) for _ in range(ch.between(0, 2, 'succ'))])
            for _ in range(ch.between(0, many, 'sequents'))]


def slightly(ch, spec):
    """The same with other digits: stored, it is often equally long."""
    def other(r):
        r = list(r)
        if ch.flip(2, 3, 'digit'):
            r[4] = ch.between(1, 9, 'a')
        if ch.flip(2, 3, 'digit'):
            r[5] = ch.between(1, 9, 'b')
        return r
    return [(junk, [other(r) for r in ante], [other(r) for r in succ])
            for junk, ante, succ in spec]


def written(spec):
    """(text of a source file, what must be stored for it)"""
    text, exp = '', []
    for junk, ante, succ in spec:
        ante = [rendered(r) for r in ante]
        succ = [rendered(r) for r in succ]
        text += junk + '(sequent "s" (antecedent %s) (succedent %s))' % (
            ' '.join([r[0] for r in ante]), ' '.join([r[0] for r in succ]))
        exp.append(([uni(r[1]) for r in ante], [uni(r[1]) for r in succ]))
    return text + (spec[0][0] if spec else '; empty'), exp


def same(got, exp):
    """None, or how stored examples differ."""
    if not isinstance(got, list) or len(got) != len(exp):
        return '%s examples, not %d' % (
            len(got) if isinstance(got, list) else got, len(exp))
    for i, (g, e) in enumerate(zip(got, exp)):
        if len(g) != 2:
            return 'example %d is %s' % (i, g)
        for what, a, b in (('antecedent', g[0], e[0]),
                           ('succedent', g[1], e[1])):
            a = list(a)
            if len(a) != len(b):
                return 'example %d: %d formulas in the %s, not %d' % (
                    i, len(a), what, len(b))
            for r, s in zip(a, b):
                if not (r.__class__ is s.__class__ and r == s):
                    return 'example %d: %s formula %s, not %s' % (i, what, r,
                                                                  s)
    return None


def put(path, text):
    """The user puts a file there (durable, no faults)."""
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    fs.spit(path, text)


def stored_names():
    ret = []
    for d in ('Metitarski', 'HidingProblems'):
        for sub in ('', 'more'):
            try:
                ret += fs.R['listdir'](os.path.join('Examples', d, sub))
            except OSError:
                pass
    return ret


class Store(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.spec = {}
        self.now = {}             # source file -> expected examples
        self.ever = {}            # stored name -> every content it may have
        self.place = {}           # source file -> directory it is in
        os.makedirs('vts')
        os.makedirs(SRC)
        os.chdir('vts')
        self.other = {}           # stored by hand in the other directory
        ch = ctx.ch
        if ch.flip(1, 3, 'other'):
            for i in range(ch.between(1, 2, 'others')):
                exp = written(source_spec(ch, 1))[1]
                put('Examples/HidingProblems/%sh%d.smt.pkl' % (
                    ch.of(('', '', 'more/'), 'sub'), i),
                    pickle.dumps(exp, ch.pick(3, 'protocol')))
                self.other['h%d.smt.pkl' % i] = exp
                self.ever['h%d.smt.pkl' % i] = [exp]

    def edit(self):
        """The user adds or changes source files."""
        ctx, ch = self.ctx, self.ctx.ch
        for name in NAMES[:ch.between(1, 3 if ctx.tier == 'quick' else 5,
                                      'files')]:
            if name in self.now and not ch.flip(1, 2, 'edit'):
                continue
            if name in self.spec and ch.flip(2, 3, 'slightly'):
                spec = slightly(ch, self.spec[name])
            else:
                spec = source_spec(ch)
            self.spec[name] = spec
            text, exp = written(spec)
            if name not in self.place:
                self.place[name] = ch.of(('', '', '', 'more/', 'more/still/'),
                                         'sub')
            put('../%s/%s%s' % (SRC, self.place[name], name), text)
            self.now[name] = exp
            self.ever.setdefault(name + '.pkl', []).append(exp)
            ctx.say('source', self.place[name] + name, repr(text[:3000]))

    def convert(self, p):
        return self.ctx.call(
            p, lambda: p.load('examples_parser')
            .write_sympy_parseable_examples())

    def read(self, p, lazy):
        """-> (status, {stored name: examples} or list of examples)"""
        def go():
            m = p.load('examples_parser')
            if lazy:
                return list(m.unpickle_dirs_gen())
            return m.unpickle_dirs()
        return self.ctx.call(p, go)

    def check_exact(self, p, lazy):
        ctx = self.ctx
        st, v = self.read(p, lazy)
        ctx.count('reads')
        if st == 'fault':
            return
        if st != 'ok':
            ctx.violate('store-unreadable', 'reading the store after a '
                        'complete conversion raises %s' % describe(v))
        if lazy:
            left = list(v)
            want = dict(self.now)
            want.update(self.other)
            for name in sorted(want):
                for g in left:
                    if same(g, want[name]) is None:
                        left.remove(g)
                        break
                else:
                    ctx.violate('examples-lost', 'no stored file has the '
                                'examples of %s' % name)
            if left:
                ctx.violate('examples-invented', '%s' % (left,))
            return
        got = v.get('Metitarski')
        if not isinstance(got, dict):
            ctx.violate('examples-lost', 'store has %s' % (v.keys(),))
        want = dict([(n + '.pkl', e) for n, e in self.now.items()])
        if sorted(got) != sorted(want):
            ctx.violate('examples-lost', 'stored files %s, sources %s' % (
                sorted(got), sorted(want)))
        for n in sorted(want):
            bad = same(got[n], want[n])
            if bad:
                ctx.violate('wrong-examples', '%s: %s' % (n, bad))
        got = v.get('HidingProblems')
        if not isinstance(got, dict) or sorted(got) != sorted(self.other):
            ctx.violate('examples-lost', 'other stored files %s, not %s' % (
                got, sorted(self.other)))
        for n in sorted(got):
            bad = same(got[n], self.other[n])
            if bad:
                ctx.violate('wrong-examples', '%s: %s' % (n, bad))

    def check_safe(self, p, lazy):
        """Whatever a reader returns is the whole of some conversion."""
        ctx = self.ctx
        there = [n for n in stored_names() if n in self.ever]
        st, v = self.read(p, lazy)
        ctx.count('reads')
        if st != 'ok':
            ctx.count('refused-reads')
            return
        if lazy:
            if len(v) < len(there):
                ctx.violate('examples-lost', '%d files read, %d are there' % (
                    len(v), len(there)))
            for g in v:
                if not [1 for n in self.ever for e in self.ever[n]
                        if same(g, e) is None]:
                    ctx.violate('wrong-examples', '%s is not the content of '
                                'any source' % (g,))
            return
        for n in there:
            if n not in v.get('Metitarski', {}) and \
                    n not in v.get('HidingProblems', {}):
                ctx.violate('examples-lost', 'stored file %s passed over' % n)
        for n, g in sorted(v.get('Metitarski', {}).items() +
                           v.get('HidingProblems', {}).items()):
            if not [1 for e in self.ever.get(n, []) if same(g, e) is None]:
                ctx.violate('wrong-examples', '%s: %s is not the content of '
                            'its source' % (n, g))


CONV_FAULTS = ('crash', 'powerloss', 'error', 'interrupt', 'memory')


def not_listing(p, writes=False):
    """os.walk hides listing errors by design: no errors there.  With writes,
    faults in the middle of writing only."""
    fire = p.io_fault
    if fire is None:
        return

    def only(op, path):
        if op in ('listdir', 'stat') or writes and op != 'write':
            p.io_fault_at = p.io_n + 1
            return None
        return fire(op, path)
    p.io_fault = only


def disturbed(ctx, store):
    """A conversion that may be cut short in any way."""
    ch, sim = ctx.ch, ctx.sim
    p = ctx.proc()
    if ch.flip(1, 8, 'diskfull'):
        sim.fs.full = True
        ctx.nontrivial = True
    ctx.io_faults(p, CONV_FAULTS, 120, 4, 5)
    not_listing(p, ch.flip(1, 2, 'in-write'))
    ctx.step_faults(p, ('crash', 'interrupt', 'memory', 'powerloss'), 900, 1,
                    4)
    ctx.out_faults(p, 8)
    st = [None]

    def body():
        st[0] = store.convert(p)[0]
        if st[0] == 'err':
            ctx.violate('conversion-fails', describe(store.convert(p)[1]))
    run_all(ctx, [sim.spawn(p, body)])
    ctx.count('disturbed-conversions')
    ctx.say('conversion', st[0] or 'killed')
    ctx.settle()
    if ch.flip(1, 6, 'late-powerloss'):
        sim.fault('powerloss')
        sim.fs.power_loss()


def listing(ctx):
    ctx.sim.fs.order = ctx.ch.flip(2, 3, 'any-order')


@scenario('C06', prepare)
def c06(ctx):
    """Undisturbed conversion, whatever came before -> exact store."""
    ch, sim = ctx.ch, ctx.sim
    ctx.chunk()
    listing(ctx)
    s = Store(ctx)
    for phase in range(ch.between(1, 2, 'phases')):
        s.edit()
        for _ in range(ch.between(0, 2, 'earlier')):
            disturbed(ctx, s)
        p = ctx.proc()
        out = []

        def body():
            st, v = s.convert(p)
            if st != 'ok':
                ctx.violate('conversion-fails', 'an undisturbed conversion '
                            'raises %s' % describe(v))
            ctx.count('conversions')
            if ch.flip(1, 2, 'same-process'):
                s.check_exact(p, ch.flip(1, 2, 'lazy'))
        run_all(ctx, [sim.spawn(p, body)])
        ctx.settle()
        q = ctx.proc()
        run_all(ctx, [sim.spawn(q, lambda: (s.check_exact(q, 0),
                                            s.check_exact(q, 1)))])
        ctx.settle()
        if phase:
            ctx.nontrivial = True


@scenario('C07', prepare)
def c07(ctx):
    """Readers after a disturbed conversion, and disturbed readers."""
    ch, sim = ctx.ch, ctx.sim
    sim.fs.chunk = (64, 256, 64, 512, 4096)[ch.pick(5, 'chunk')]
    listing(ctx)
    s = Store(ctx)
    for phase in range(1 + ch.weighted((1, 3, 2), 'phases')):
        s.edit()
        for _ in range(ch.between(1, 2, 'conversions')):
            if phase == 0 and ch.flip(1, 2, 'undisturbed'):
                p = ctx.proc()
                run_all(ctx, [sim.spawn(p, lambda: s.convert(p))])
                ctx.settle()
                break
            disturbed(ctx, s)
            q = ctx.proc()
            hurt = ch.flip(1, 2, 'hurt-reader')
            lazy = ch.flip(1, 2, 'lazy')

            def body():
                # an interrupted import is a restart
                q.load('examples_parser')
                if hurt:
                    ctx.io_faults(q, ('error', 'interrupt', 'memory'), 40)
                    not_listing(q)
                    ctx.step_faults(q, ('interrupt', 'memory'), 60, 1, 3)
                s.check_safe(q, lazy)
                ctx.disarm(q)
                s.check_safe(q, 1 - lazy)
            run_all(ctx, [sim.spawn(q, body)])
            ctx.settle()


# ------------------------------------------------------------------- C09
def poly_rel(ch):
    """(relation of a stored example, coefficient list, class name)"""
    p = gen.poly(ch, 2)
    if len(p) < 2:
        p = [p[0], 1]
    return with_rel(ch, p)


def with_rel(ch, p):
    op, cls = ch.of(gen.RELS, 'rel')
    r = cls(gen.as_sympy(p, X), 0)
    if not hasattr(r, 'lhs'):
        return poly_rel(ch)
    if ch.flip(1, 6, 'fractions'):
        k = sympy.Rational(1, ch.of((6, 2, 3, 10, 12), 'denominator'))
        r = cls((gen.as_sympy(p, X) * k).expand(), 0)
    return r, p, op


def example(ch):
    """(antecedent, succedent)"""
    style = ch.weighted((6, 2, 1), 'style')
    if style == 0:
        return ([poly_rel(ch) for _ in range(ch.between(1, 2, 'ante'))],
                [poly_rel(ch) for _ in range(ch.between(1, 2, 'succ'))])
    if style == 1:
        # one polynomial, or nearly, on both sides
        p = poly_rel(ch)[1]
        near = [p, p, [-c for c in p], [p[0] + ch.of((1, -1), 'nudge')] +
                p[1:]]
        return ([with_rel(ch, ch.of(near, 'kin')) for _ in
                 range(ch.between(1, 2, 'ante'))],
                [with_rel(ch, ch.of(near, 'kin')) for _ in
                 range(ch.between(1, 2, 'succ'))])
    # many bounds; which of them matters is anyone's guess
    up = ch.of((1, -1), 'up')
    ante = []
    for _ in range(ch.between(4, 9, 'bounds')):
        p = [-up * ch.between(-9, 9, 'bound'), up]
        r = ch.of((sympy.Le, sympy.Lt), 'rel')
        ante.append((r(gen.as_sympy(p, X), 0), p,
                     '<=' if r is sympy.Le else '<'))
    best = max(ante, key=lambda a: a[1][0])[1]
    p = [best[0] - ch.of((0, 1, -1), 'slack'), up]
    r = ch.of((sympy.Le, sympy.Lt), 'rel')
    return ante, [(r(gen.as_sympy(p, X), 0), p, '<=' if r is sympy.Le
                   else '<')]


def valid(ante, succ):
    """Is ante => /\\ succ true for every real x?"""
    for q in succ:
        parts = [[], [], [], []]
        for (r, p, op), neg in [(a, False) for a in ante] + [(q, True)]:
            if neg:
                op = {'<=': '>', '<': '>=', '=': '!=', '!=': '=', '>=': '<',
                      '>': '<='}[op]
            if op in ('>=', '>'):
                p = [-c for c in p]
            parts[{'<=': 0, '>=': 0, '<': 1, '>': 1, '=': 2,
                   '!=': 3}[op]].append(p)
        if reference.satisfiable(*parts):
            return False
    return True


@scenario('C09', prepare)
def c09(ctx):
    """The batch checker: one true verdict per example, and a true summary."""
    ch, sim = ctx.ch, ctx.sim
    ctx.chunk()
    listing(ctx)
    os.makedirs('vts')
    os.chdir('vts')
    files = {}

    def store(name):
        exs = []
        for _ in range(ch.between(1, 2, 'examples')):
            exs.append(example(ch))
        put('Examples/' + name, pickle.dumps(
            [(ch.flip(1, 6, 'true') * [sympy.Gt(2, 1)] + [r[0] for r in a],
              [r[0] for r in s] + ch.flip(1, 6, 'true') * [sympy.Gt(2, 1)])
             for a, s in exs], ch.pick(3, 'protocol')))
        files[name] = exs
        ctx.say(name, [([r[0] for r in a], [r[0] for r in s])
                       for a, s in exs])

    for i in range(ch.between(1, 3, 'files')):
        store('%s/%d.trace.pkl' % (
            ch.of(('Metitarski', 'HidingProblems'), 'dir'), i))
    engine = ch.pick(2, 'engine')
    torn = None
    if ch.flip(1, 5, 'torn'):
        torn = ch.of(sorted(files), 'torn-file')
        data = fs.slurp('Examples/' + torn)
        fs.spit('Examples/' + torn, data[:ch.pick(len(data), 'torn-at')])
        ctx.nontrivial = True
    p = None
    for n in range(ch.between(1, 3, 'times')):
        if n and ch.flip(1, 2, 'changed'):
            name = ch.of(sorted(files), 'changed-file')
            store(name)
            if name == torn:
                torn = None
        if ch.flip(1, 3, 'other-engine'):
            engine = 1 - engine
        if p is None:
            p = ctx.proc()
        hurt = ch.flip(1, 2, 'hurt')

        def body():
            m = p.load('checker')
            m.examples_parser
            if hurt:
                ctx.io_faults(p, ('error', 'interrupt', 'memory', 'crash'),
                              40)
                not_listing(p)
                ctx.step_faults(p, ('interrupt', 'memory', 'crash'), 3000, 1,
                                3)
            del p.stdout[:]
            return ctx.call(p, m.check_examples, not engine)
        t = sim.spawn(p, body)
        run_all(ctx, [t])
        ctx.count('batches')
        st, v = t.result if t.result is not None else ('killed', None)
        text = ''.join(p.stdout)
        if p.crashed or ch.flip(1, 2, 'new-process'):
            ctx.settle()
            p = None
        else:
            ctx.disarm(p)
        verdicts = re.findall(r'^formula value: (\S+)$', text, re.M)
        order = re.findall(r'^parsing ([^\r\n]*)\r', text, re.M)
        exp, refuted = [], []
        for i, b in enumerate(order):
            hits = [f for f in files if f.endswith('/' + b)]
            if len(hits) != 1:
                ctx.violate('wrong-file', 'reads %r' % b)
            if hits[0] == torn:
                continue
            for k, (a, s) in enumerate(files[hits[0]]):
                ok = valid(a, s)
                exp.append(str(ok))
                if not ok:
                    refuted.append('(%d, %d) - False' % (i, k))
        ctx.count('examples', len(verdicts))
        if verdicts != exp[:len(verdicts)]:
            ctx.violate('wrong-verdict', 'verdicts %s, truth %s' % (verdicts,
                                                                    exp))
        if torn is not None and st == 'ok':
            ctx.violate('torn-file-ignored', '%s is cut short and the batch '
                        'ends without an error' % torn)
        if st == 'err' and torn is None:
            ctx.violate('batch-fails', 'raises %s with nothing injected'
                        % describe(v))
        if st == 'ok':
            if len(order) != len(files) or len(verdicts) != len(exp):
                ctx.violate('examples-skipped', '%d files, %d verdicts; '
                            'there are %d and %d' % (
                                len(order), len(verdicts), len(files),
                                len(exp)))
            tail = sorted(re.findall(r'^(\(\d+, \d+\) - \S+)$', text, re.M))
            if tail != sorted(refuted):
                ctx.violate('wrong-summary', '%s, not %s' % (tail, refuted))
    ctx.nontrivial = True
