"""Workload generators and their expected answers (independent of the code
under test)."""
import sympy

import reference as R


# ----------------------------------------------------------------- polynomials
def poly(ch, maxdeg=3):
    """Integer coefficient list, low to high, non-zero leading one."""
    k = ch.weighted((5, 4, 1, 1, 1), 'poly-kind')
    if k == 0:
        # product of rational-root factors: repeated and shared roots
        p = [ch.of((1, -1, 2), 'lead')]
        for _ in range(ch.between(1, maxdeg, 'deg')):
            p = [int(c) for c in R.p_mul(p, [ch.between(-3, 3, 'root'),
                                             ch.of((1, 1, 2, 3), 'slope')])]
        return p
    if k == 1:
        d = ch.between(1, maxdeg, 'deg')
        return [ch.between(-4, 4, 'coef') for _ in range(d)] + \
            [ch.of((1, -1, 2, -3), 'lead')]
    if k == 2:
        return [ch.of((1, -1, 3, -2), 'const')]
    if k == 3:
        # a large scale
        t = 10 ** ch.between(1, 9, 'scale')
        d = ch.weighted((3, 1), 'deg') + 1
        return tame([ch.between(-3, 3, 'coef') * t + ch.between(-1, 1, 'off')
                     for _ in range(d)] + [ch.of((t, -t), 'lead')])
    d = ch.between(1, maxdeg, 'deg')
    return [ch.between(-9, 9, 'coef')] + [0] * (d - 1) + \
        [ch.of((1, -1, 2), 'lead')]


def tame(p):
    """p, or 1 if p has a root that the real closed field library used by the
    code under test (Z3's, not part of the repository) may not handle: its
    bounds on the size of a root are wrong for some polynomials with roots
    beyond 16 or below 1/16, e.g. MkRoots([-34, 15, 1]) gives -0.5 for -17."""
    q = R.squarefree(p)
    if len(q) > 1:
        seq = R.sturm(q)
        inside = R.variations(seq, -8) - R.variations(seq, 8)
        small = R.Fraction(1, 8)
        tiny = R.variations(seq, -small) - R.variations(seq, small)
        if inside != len(R.isolate(q)) or tiny != (1 if q[0] == 0 else 0):
            return [1]
    return p


def near(ch, p):
    return tame(near_any(ch, p))


def near_any(ch, p):
    """A polynomial easily mistaken for p."""
    p = list(p)
    k = ch.pick(9, 'near')
    if k == 0:
        return [-c for c in p]
    if k == 1:
        m = ch.of((2, 3, 10 ** 6), 'times')
        return [m * c for c in p]
    if k == 2:
        # roots moved by very little
        m = 10 ** ch.of((3, 6, 9), 'close')
        p = [m * c for c in p]
        p[0] += ch.of((1, -1), 'nudge')
        return p
    if k == 3:
        i = ch.pick(len(p), 'which')
        p[i] += ch.of((1, -1), 'nudge')
        return p if p[-1] else p[:-1] + [1]
    if k == 4:
        # mirrored: p(-x)
        return [c if i % 2 == 0 else -c for i, c in enumerate(p)]
    if k == 5:
        i, j = ch.pick(len(p), 'i'), ch.pick(len(p), 'j')
        p[i], p[j] = p[j], p[i]
        return p if p[-1] else p[:-1] + [1]
    if k == 6:
        return regrouped(ch, p)
    if k == 7:
        # reversed: the reciprocals of the roots
        return p[::-1] if p[0] else p[::-1][1:] + [p[-1]]
    # p plus a constant
    p[0] += ch.of((1, -1, 5), 'nudge')
    return p if any(p) else [1]


def regrouped(ch, p):
    """Other coefficients with the same digits one after the other."""
    text = ''.join(str(c) for c in p)
    ret, i = [], 0
    while i < len(text):
        sign = text[i] == '-'
        first = i + sign
        j = first + 1
        while (j < len(text) and text[j] != '-' and text[first] != '0' and
               (len(ret) == 4 or ch.flip(1, 2, 'join'))):
            j += 1
        ret.append(int(text[i:j]))
        i = j
    while ret and ret[-1] == 0:
        ret.pop()
    return ret if 0 < len(ret) <= 5 else p


def digits(ch):
    """Polynomials whose coefficients read alike."""
    p = [ch.of((1, -1), 'sign') * ch.between(1, 9, 'digit')
         for _ in range(ch.between(2, 3, 'digits'))]
    return [p] + [tame(regrouped(ch, p)) for _ in range(3)]


def query(ch, tier):
    """(le, lt, eq, ne)"""
    parts = [[], [], [], []]
    top = 4 if ch.flip(1, 12, 'quartic') else 3
    ps = []
    for _ in range(1 + ch.weighted((6, 10, 8, 1, 1), 'polys')):
        k = ch.weighted((8, 1, 2), 'same-poly') if ps else 0
        if k == 0:
            p = poly(ch, top)
        else:
            p = list(ps[ch.pick(len(ps), 'which')])
            if k == 2:
                p = near(ch, p)
        ps.append(p)
        parts[ch.pick(4, 'part')].append(p)
    return parts


def variant(ch, q):
    """A query easily mistaken for q."""
    parts = [[list(p) for p in part] for part in q]
    where = [(i, j) for i in range(4) for j in range(len(parts[i]))]
    i, j = ch.of(where, 'which')
    k = ch.pick(4, 'variant')
    if k == 0:
        parts[i][j] = near(ch, parts[i][j])
    elif k == 1:
        parts[ch.pick(4, 'part')].append(parts[i].pop(j))
    elif k == 2:
        parts = [ch.shuffled(part, 'order') for part in parts]
        parts[i][j] = near(ch, parts[i][j])
    else:
        parts[ch.pick(4, 'part')].append(near(ch, parts[i][j]))
    return parts


def twins(ch):
    """Two lines whose roots are very close, and their product."""
    m = 10 ** ch.of((3, 5, 6, 7, 9), 'close')
    p = [m * ch.between(-5, 5, 'root'), m * ch.of((1, 2, 3, 7), 'slope')]
    q = [p[0] + ch.of((1, -1), 'nudge'), p[1]]
    if tame(q) != q:
        return [p, p[:]]
    both = [int(c) for c in R.p_mul(p, q)]
    if ch.flip(1, 3, 'third'):
        both = [int(c) for c in R.p_mul(both, [ch.between(-3, 3, 'root'), 1])]
    ret = [p, q, both, [-c for c in both]]
    if ch.flip(1, 2, 'mirror'):
        ret += [[-c for c in p], [-c for c in q]]
    return ret


def family(ch):
    """Polynomials that share roots, have almost the same roots, or differ by
    a factor or a sign only."""
    if ch.flip(1, 6, 'alike'):
        return digits(ch)
    if ch.flip(1, 6, 'twins'):
        return twins(ch)
    if ch.flip(1, 3, 'line'):
        ps = [[ch.between(-5, 5, 'root'), ch.of((1, 2, 3, 7), 'slope')]]
    else:
        ps = [poly(ch, ch.between(1, 2, 'deg'))]
    for _ in range(ch.between(2, 4, 'family')):
        p = ch.of(ps, 'of')
        k = ch.weighted((3, 3, 1, 3), 'kin')
        if k == 0:
            m = ch.of((2, 3, -1, -2, 10 ** 6), 'times')
            p = [m * c for c in p]
        elif k == 1:
            m = 10 ** ch.of((3, 6, 6, 9), 'close')
            p = [m * c for c in p]
            p[0] += ch.of((1, -1), 'nudge')
            p = tame(p)
        elif k == 2 and len(p) < 4:
            p = tame([int(c) for c in R.p_mul(
                p, [ch.between(-3, 3, 'root'), ch.of((1, 1, 2), 'slope')])])
        else:
            p = near(ch, p)
        ps.append(p)
    return ps


def kin_query(ch, ps):
    """A query about members of a family."""
    parts = [[], [], [], []]
    for _ in range(ch.between(1, 3, 'polys')):
        parts[ch.weighted((2, 3, 3, 1), 'part')].append(
            list(ch.of(ps, 'member')))
    return parts


def repeat_query(ch):
    """One small polynomial in several of the lists."""
    p = poly(ch, ch.between(1, 2, 'deg'))
    parts = [[], [], [], []]
    for _ in range(ch.between(2, 3, 'polys')):
        parts[ch.pick(4, 'part')].append(
            list(p) if ch.flip(3, 4, 'same') else near(ch, p))
    return parts


def truth(parts):
    return R.satisfiable(*parts)


def as_sympy(p, x):
    e = sympy.Integer(0)
    for i, c in enumerate(p):
        e = e + sympy.Integer(c) * x ** i
    return e


# --------------------------------------------------------------------- sequents
NAMES = ('x', 'y', 'skoXC1', 'a_1', 'v_359', 'A', 'I', 'E', 'S', 'N', 'pi',
         'sympy', 'pyp', 'term', 'int', 'real', 'number', 'doInt', 't', 's',
         'fml', 'cmd', 'Le', 'None', 'lambda', 'sequent', 'antecedent', '_',
         '__name__', 'l', 'proc_le', 'print')


def name(ch):
    if ch.flip(1, 3, 'odd-name'):
        return ch.of(NAMES, 'name')
    return ch.of(('x', 'y', 'skoXC1'), 'name')


def term(ch, depth):
    """(text, sympy expression)"""
    k = ch.weighted((3, 4, 2, 2, 2, 1, 1) if depth > 0 else (3, 4), 'term')
    if k == 0:
        n = name(ch)
        return n, sympy.Symbol(n)
    if k == 1:
        v = ch.between(0, 12, 'num')
        f = ch.pick(4, 'num-form')
        if f == 0:
            return str(v), sympy.Integer(v)
        if f == 1:
            return str(v) + '.', sympy.Integer(v)
        if f == 2:
            return '-%d' % v, -sympy.Integer(v)
        t = '%d.%d' % (v, ch.of((5, 25, 75), 'frac'))
        return t, sympy.Float(t)
    if k == 6:
        t, e = term(ch, depth - 1)
        return '(- %s)' % t, -e
    a, b = term(ch, depth - 1), term(ch, depth - 1)
    ta, tb = a[0], b[0]
    if k == 2:
        return '(+ %s %s)' % (ta, tb), a[1] + b[1]
    if k == 3:
        return '(* %s %s)' % (ta, tb), a[1] * b[1]
    if k == 4:
        return '(- %s %s)' % (ta, tb), a[1] - b[1]
    if b[1] == 0:
        return '(/ %s 2)' % ta, a[1] / sympy.Integer(2)
    return '(/ %s %s)' % (ta, tb), a[1] / b[1]


RELS = (('<=', sympy.Le), ('<', sympy.Lt), ('=', sympy.Eq), ('!=', sympy.Ne),
        ('>=', sympy.Ge), ('>', sympy.Gt))


def relation(ch, depth=2):
    op, cls = ch.of(RELS, 'rel')
    a, b = term(ch, depth), term(ch, depth)
    return '(%s %s %s)' % (op, a[0], b[0]), cls(a[1], b[1])


def sequent(ch, depth=2):
    """(text, (name, antecedent relations, succedent relations))"""
    nm = ch.of(('MetiTarski formula', 'a ==> b', 'x\ny', 'f_1'), 'title')
    ante = [relation(ch, depth) for _ in range(ch.between(0, 3, 'ante'))]
    succ = [relation(ch, depth) for _ in range(ch.between(0, 2, 'succ'))]
    sp = ch.of((' ', '\n', '  \n\t'), 'space')
    text = '(sequent%s"%s"%s(antecedent%s%s)%s(succedent%s%s))' % (
        sp, nm, sp, sp, sp.join([r[0] for r in ante]), sp, sp,
        sp.join([r[0] for r in succ]))
    return text, (nm, [r[1] for r in ante], [r[1] for r in succ])


def broken_sequent(ch):
    """Text the parser does not accept as a sequent (or not whole)."""
    text, _ = sequent(ch, 1)
    k = ch.pick(4, 'broken')
    if k == 0:
        return text[:ch.pick(len(text), 'cut')]
    if k == 1:
        return text.replace('antecedent', 'antecedents', 1)
    if k == 2:
        return text.replace('(sequent', '(sequent (', 1)
    return '(sequent "q" (antecedent (<= x)) (succedent))'


def same_rel(a, b):
    return a.__class__ is b.__class__ and a == b and str(a) == str(b)


def check_sequent(res, exp):
    """None, or how the parse result differs."""
    try:
        got_name = res['str_name']
        ante = list(res['antecedent']['fmls'])
        succ = list(res['succedent']['fmls'])
    except Exception, e:
        return 'unusable result %s (%s)' % (res, e)
    if got_name != exp[0]:
        return 'name %r, not %r' % (got_name, exp[0])
    for what, g, w in (('antecedent', ante, exp[1]),
                       ('succedent', succ, exp[2])):
        if len(g) != len(w):
            return '%d formulas in the %s, not %d' % (len(g), what, len(w))
        for a, b in zip(g, w):
            if not same_rel(a, b):
                return '%s formula %s, not %s' % (what, a, b)
    return None
