"""The small part of Sage, numpy and scipy that GRF uses (none of them is
installed): rational polynomial rings, root isolation, Groebner bases, 0-1
programs.  Arithmetic is exact throughout; whatever the real libraries leave
open (which optimum, how wide an isolating interval, what a numerical solver
returns) is drawn from the random stream handed to `session`."""
import itertools
from fractions import Fraction, gcd


def frac(v):
    if isinstance(v, Num):
        return Fraction(v.n, v.d)
    if isinstance(v, Poly):
        return v.constant()
    if isinstance(v, float):
        return Fraction(v)
    return Fraction(v)


def numden(v):
    if isinstance(v, (int, long)):
        return v, 1
    if isinstance(v, float):
        return v.as_integer_ratio()
    v = frac(v)
    return v.numerator, v.denominator


class Num(object):
    """An exact rational that is not kept in lowest terms."""

    def __init__(self, n, d):
        self.n, self.d = n, d

    def __cmp__(self, o):
        a, b = numden(o)
        return cmp(self.n * b, a * self.d)

    def __eq__(self, o):
        return self.__cmp__(o) == 0

    def __ne__(self, o):
        return self.__cmp__(o) != 0

    __hash__ = None

    def __float__(self):
        return float(Fraction(self.n, self.d))

    def __add__(self, o):
        return Fraction(self.n, self.d) + frac(o)
    __radd__ = __add__

    def __sub__(self, o):
        return Fraction(self.n, self.d) - frac(o)

    def __rsub__(self, o):
        return frac(o) - Fraction(self.n, self.d)

    def __mul__(self, o):
        return Fraction(self.n, self.d) * frac(o)
    __rmul__ = __mul__

    def __neg__(self):
        return Num(-self.n, self.d)

    def __abs__(self):
        return Num(abs(self.n), abs(self.d))

    def is_constant(self):
        return True

    def variables(self):
        return ()

    def __repr__(self):
        return str(Fraction(self.n, self.d))


class Ring(object):
    def __init__(self, n):
        self.n = n
        self._gens = tuple([
            Poly(self, {tuple([int(i == j) for j in range(n)]): Fraction(1)})
            for i in range(n)])

    def gens(self):
        return self._gens

    def gen(self, i=0):
        return self._gens[i]

    def ngens(self):
        return self.n

    def zero(self):
        return Poly(self, {})

    def one(self):
        return self(1)

    def __call__(self, v):
        if isinstance(v, Poly):
            if v.ring is self:
                return v
            t = {}
            for e, c in v.terms.items():
                if any(e[self.n:]):
                    raise TypeError('%s is not in a ring of %d variables'
                                    % (v, self.n))
                t[(e + (0,) * self.n)[:self.n]] = c
            return Poly(self, t)
        if isinstance(v, str):
            v = Fraction(v)
        c = frac(v)
        return Poly(self, {(0,) * self.n: c} if c else {})

    def __eq__(self, o):
        return isinstance(o, Ring) and o.n == self.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.n

    def __repr__(self):
        return 'QQ[%s]' % ', '.join(['x%d' % i for i in range(self.n)])


_rings = {}


def ring(n):
    if n not in _rings:
        _rings[n] = Ring(n)
    return _rings[n]


def trim(e):
    while e and not e[-1]:
        e = e[:-1]
    return e


def drl(e):
    """degrevlex"""
    return (sum(e), tuple([-k for k in reversed(e)]))


class Poly(object):
    def __init__(self, r, terms):
        self.ring = r
        self.terms = terms
        self._h = self._i = None

    def parent(self):
        return self.ring

    # -- arithmetic
    def _pair(self, o):
        """both in one ring, or None"""
        if not isinstance(o, Poly):
            try:
                return self, self.ring(o)
            except (TypeError, ValueError):
                return None
        if o.ring is self.ring:
            return self, o
        r = self.ring if self.ring.n > o.ring.n else o.ring
        return r(self), r(o)

    def __add__(self, o):
        a, b = self._pair(o)
        t = dict(a.terms)
        for e, c in b.terms.items():
            s = t.get(e, 0) + c
            if s:
                t[e] = s
            else:
                t.pop(e, None)
        return Poly(a.ring, t)
    __radd__ = __add__

    def __neg__(self):
        return Poly(self.ring, dict([(e, -c) for e, c in self.terms.items()]))

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        a, b = self._pair(o)
        t = {}
        for e, c in a.terms.items():
            for f, d in b.terms.items():
                k = tuple([x + y for x, y in zip(e, f)])
                t[k] = t.get(k, 0) + c * d
        return Poly(a.ring, dict([(e, c) for e, c in t.items() if c]))
    __rmul__ = __mul__

    def __div__(self, o):
        a, b = self._pair(o)
        if not b.terms:
            raise ZeroDivisionError('division by zero')
        if not b.is_constant():
            raise TypeError('%s is not a constant' % b)
        k = b.constant()
        return Poly(a.ring, dict([(e, c / k) for e, c in a.terms.items()]))
    __truediv__ = __div__

    def __rdiv__(self, o):
        return self.ring(o) / self
    __rtruediv__ = __rdiv__

    def __pow__(self, n):
        out = self.ring(1)
        for _ in range(int(n)):
            out = out * self
        return out

    # -- comparison: equal across rings, ordered when constant
    def __eq__(self, o):
        p = self._pair(o)
        return p is not None and p[0].terms == p[1].terms

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset([(trim(e), c)
                                      for e, c in self.terms.items()]))
        return self._h

    def _cmp(self, o):
        return cmp((self - o).constant(), 0)

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __nonzero__(self):
        return bool(self.terms)

    def __float__(self):
        return float(self.constant())

    def __abs__(self):
        return abs(self.constant())

    # -- parts
    def is_constant(self):
        return not self.terms or (len(self.terms) == 1 and
                                  not any(self.terms.keys()[0]))

    def is_zero(self):
        return not self.terms

    def constant(self):
        if not self.is_constant():
            raise TypeError('%s is not a constant' % self)
        return self.terms.values()[0] if self.terms else Fraction(0)

    constant_coefficient = constant

    def variables(self):
        return tuple([g for i, g in enumerate(self.ring.gens())
                      if [1 for e in self.terms if e[i]]])

    def nvariables(self):
        return len(self.variables())

    def _lead(self):
        return max(self.terms, key=drl)

    def lt(self):
        if not self.terms:
            return self
        e = self._lead()
        return Poly(self.ring, {e: self.terms[e]})

    def lc(self):
        return self.terms[self._lead()] if self.terms else Fraction(0)

    def monomials(self):
        return [Poly(self.ring, {e: Fraction(1)})
                for e in sorted(self.terms, key=drl, reverse=True)]

    def _index(self, x):
        for i, g in enumerate(self.ring.gens()):
            if g == x:
                return i
        raise TypeError('%s is not a variable' % x)

    def degree(self, x=None):
        if not self.terms:
            return -1
        if x is None:
            return self.total_degree()
        i = self._index(x)
        return max([e[i] for e in self.terms])

    def total_degree(self):
        return max([sum(e) for e in self.terms]) if self.terms else -1

    def coefficient(self, d):
        t = self.terms
        for x, k in d.items():
            i = self._index(x)
            t = dict([(e[:i] + (0,) + e[i + 1:], c) for e, c in t.items()
                      if e[i] == k])
        return Poly(self.ring, t)

    def coeffs_in(self, x):
        """[coefficient of x^0, x^1, ...]"""
        return [self.coefficient({x: k})
                for k in range(max(self.degree(x), 0) + 1)]

    def substitute(self, d):
        idx = {}
        for k, v in d.items():
            for i, g in enumerate(self.ring.gens()):
                if g == k:
                    idx[i] = numden(v)
        used = [i for i in range(self.ring.n)
                if [1 for e in self.terms if e[i]]]
        if not [i for i in used if i not in idx]:
            # all variables given: over the integers
            deg = [max([e[i] for e in self.terms]) for i in used]
            if self._i is None:
                den = 1
                for c in self.terms.values():
                    den = den * c.denominator // gcd(den, c.denominator)
                self._i = ([(e, c.numerator * (den // c.denominator))
                            for e, c in self.terms.items()], den)
            terms, den = self._i
            num = 0
            for e, c in terms:
                for i, m in zip(used, deg):
                    a, b = idx[i]
                    c = c * a ** e[i] * b ** (m - e[i])
                num += c
            for i, m in zip(used, deg):
                den = den * idx[i][1] ** m
            return Num(num, den)
        t = {}
        for e, c in self.terms.items():
            f = list(e)
            for i, (a, b) in idx.items():
                c = c * Fraction(a, b) ** e[i]
                f[i] = 0
            f = tuple(f)
            t[f] = t.get(f, 0) + c
        return Poly(self.ring, dict([(e, c) for e, c in t.items() if c]))

    subs = substitute

    def univariate_polynomial(self):
        v = self.variables()
        if len(v) > 1:
            raise TypeError('%s is not univariate' % self)
        i = self._index(v[0]) if v else 0
        c = [Fraction(0)] * (max([e[i] for e in self.terms] or [0]) + 1)
        for e, k in self.terms.items():
            c[e[i]] = k
        return Uni(c)

    # -- elimination
    def resultant(self, q, x):
        a, b = self._pair(q)
        f, g = a.coeffs_in(x)[::-1], b.coeffs_in(x)[::-1]
        m, n = len(f) - 1, len(g) - 1
        rows = []
        z = a.ring(0)
        for i in range(n):
            rows.append([z] * i + f + [z] * (n - 1 - i))
        for i in range(m):
            rows.append([z] * i + g + [z] * (m - 1 - i))
        return det(rows, a.ring)

    def derivative(self, x):
        i = self._index(x)
        return Poly(self.ring, dict([
            (e[:i] + (e[i] - 1,) + e[i + 1:], c * e[i])
            for e, c in self.terms.items() if e[i]]))

    def discriminant(self, x):
        n = self.degree(x)
        if n < 1:
            return self.ring(0)
        if n == 1:
            return self.ring(1)
        r = self.resultant(self.derivative(x), x)
        q = exact_div(r, self.coefficient({x: n}))
        return -q if n * (n - 1) // 2 % 2 else q

    def reduce(self, basis):
        """normal form"""
        basis = [self.ring(b) for b in basis if b != 0]
        p, out = self, self.ring(0)
        while p.terms:
            e = p._lead()
            for b in basis:
                f = b._lead()
                if all([x >= y for x, y in zip(e, f)]):
                    k = Poly(self.ring, {tuple([x - y for x, y in zip(e, f)]):
                                         p.terms[e] / b.terms[f]})
                    p = p - k * b
                    break
            else:
                t = Poly(self.ring, {e: p.terms[e]})
                out, p = out + t, p - t
        return out

    def roots(self):
        return self.univariate_polynomial().roots()

    def real_root_intervals(self):
        return self.univariate_polynomial().real_root_intervals()

    def __repr__(self):
        out = ''
        for e in sorted(self.terms, key=drl, reverse=True):
            c = self.terms[e]
            m = '*'.join(['x%d' % i + ('^%d' % k if k > 1 else '')
                          for i, k in enumerate(e) if k])
            s = '' if abs(c) == 1 and m else str(abs(c))
            out += (' - ' if c < 0 else ' + ') + s + \
                ('*' if s and m else '') + m
        if not out:
            return '0'
        return out[3:] if out[1] == '+' else '-' + out[3:]

    __str__ = __repr__


def det(rows, r):
    """by expansion: the matrices are small and sparse"""
    if not rows:
        return r(1)
    out = r(0)
    for j, c in enumerate(rows[0]):
        if c.terms:
            m = det([row[:j] + row[j + 1:] for row in rows[1:]], r)
            out = out + (c * m if j % 2 == 0 else -(c * m))
    return out


def exact_div(p, q):
    r, out = p, p.ring(0)
    f = q._lead()
    while r.terms:
        e = r._lead()
        k = Poly(p.ring, {tuple([x - y for x, y in zip(e, f)]):
                          r.terms[e] / q.terms[f]})
        out, r = out + k, r - k * q
    return out


class Uni(object):
    """A univariate polynomial over the rationals: coefficients from the
    constant up."""

    def __init__(self, c):
        c = list(c)
        while c and not c[-1]:
            c.pop()
        self.c = c

    def __mul__(self, o):
        if not isinstance(o, Uni):
            return Uni([k * frac(o) for k in self.c])
        if not self.c or not o.c:
            return Uni([])
        out = [Fraction(0)] * (len(self.c) + len(o.c) - 1)
        for i, a in enumerate(self.c):
            for j, b in enumerate(o.c):
                out[i + j] += a * b
        return Uni(out)
    __rmul__ = __mul__

    def __eq__(self, o):
        return self.c == (o.c if isinstance(o, Uni) else
                          Uni([Fraction(o)]).c)

    def __ne__(self, o):
        return not self == o

    def degree(self):
        return len(self.c) - 1

    def is_constant(self):
        return len(self.c) < 2

    def __call__(self, v):
        out = Fraction(0)
        for k in reversed(self.c):
            out = out * v + k
        return out

    def divmod(self, o):
        r, q = list(self.c), []
        while len(r) >= len(o.c):
            k = r[-1] / o.c[-1]
            q.append(k)
            for i in range(len(o.c)):
                r[len(r) - len(o.c) + i] -= k * o.c[i]
            r.pop()
        return Uni(q[::-1]), Uni(r)

    def quo_rem(self, o):
        return self.divmod(o)

    def __floordiv__(self, o):
        return self.divmod(o)[0]

    def __mod__(self, o):
        return self.divmod(o)[1]

    def squarefree(self):
        a, b = self, Uni([k * i for i, k in enumerate(self.c)][1:])
        while b.c:
            a, b = b, a.divmod(b)[1]
        return self.divmod(a)[0]

    def roots(self):
        """[(rational root, multiplicity)], smallest first"""
        if not self.c:
            raise ArithmeticError('roots of 0 are not defined')
        if len(self.c) < 2:
            return []
        sf, chain, spans = isolated(ints(self.c))
        lead = abs(sf[-1])
        out = []
        for l, u in spans:
            # lead * root is whole when the root is rational
            sl = sign_at(sf, l)
            while (u - l) * lead >= 1:
                m = (l + u) / 2
                s = sign_at(sf, m)
                if s == 0:
                    l = u = m
                elif s == sl:
                    l = m
                else:
                    u = m
            n = int((u * lead).numerator // (u * lead).denominator)
            r = Fraction(n, lead)
            if l <= r and sign_at(sf, r) == 0:
                m, q = 0, self
                while len(q.c) > 1 and not q(r):
                    q = q.divmod(Uni([-r, Fraction(1)]))[0]
                    m += 1
                out.append((r, m))
        out.sort()
        return out

    def real_root_intervals(self):
        """[((l, u), multiplicity)]: disjoint intervals with one root each;
        how narrow is open"""
        if len(self.c) < 2:
            return []
        sf, chain, spans = isolated(ints(self.c))
        out = []
        for l, u in spans:
            sl = sign_at(sf, l)
            for _ in range(RNG.below(4)):
                m = (l + u) / 2
                s = sign_at(sf, m)
                if s == 0:
                    continue
                if s == sl:
                    l = m
                else:
                    u = m
            out.append(((l, u), 1))
        return out


def ints(c):
    """a primitive integer multiple (by a positive number) of c"""
    den = 1
    for k in c:
        d = k.denominator
        den = den * d // gcd(den, d)
    v = [int(k * den) if k.denominator == 1 else
         k.numerator * (den // k.denominator) for k in c]
    return primitive(v)


def primitive(v):
    g = 0
    for k in v:
        g = gcd(abs(k), g) if g else abs(k)
        if g == 1:
            return tuple(v)
    return tuple([k // g for k in v]) if g else tuple(v)


def sign_at(v, q):
    """the sign at the fraction q"""
    n, d = q.numerator, q.denominator
    out, w = v[-1], 1
    for k in reversed(v[:-1]):
        w *= d
        out = out * n + k * w
    return cmp(out, 0)


def neg_rem(a, b):
    """minus the remainder of a by b, up to a positive factor"""
    r, lb, db = list(a), b[-1], len(b)
    while len(r) >= db:
        k = r[-1]
        if lb > 0:
            f, g = lb, k
        else:
            f, g = -lb, -k
        r = [x * f for x in r]
        o = len(r) - db
        for i in range(db):
            r[o + i] -= g * b[i]
        r.pop()
        while r and not r[-1]:
            r.pop()
    return primitive([-x for x in r])


def whole_div(a, b):
    """a / b up to a positive factor, where b divides a"""
    r = [Fraction(x) for x in a]
    q = []
    while len(r) >= len(b):
        k = r[-1] / b[-1]
        q.append(k)
        o = len(r) - len(b)
        for i in range(len(b)):
            r[o + i] -= k * b[i]
        r.pop()
    return ints(q[::-1])


def sturm(v):
    chain = [v, primitive([k * i for i, k in enumerate(v)][1:])]
    while len(chain[-1]) > 1:
        r = neg_rem(chain[-2], chain[-1])
        if not r:
            break
        chain.append(r)
    return chain


CACHE = {}


def isolated(v):
    """(square-free part, its Sturm chain, isolating intervals none of whose
    ends is a root)"""
    if v in CACHE:
        return CACHE[v]
    if len(CACHE) > 4000:
        CACHE.clear()
    chain = sturm(v)
    sf = v
    if len(chain[-1]) > 1:
        sf = whole_div(v, chain[-1])
        chain = sturm(sf)
    top = max([abs(k) for k in sf[:-1]]) // abs(sf[-1]) + 2
    bound = 1
    while bound < top:
        bound *= 2
    bound = Fraction(bound)

    def var(q):
        n, last = 0, 0
        for p in chain:
            s = sign_at(p, q)
            if s:
                n += last * s < 0
                last = s
        return n
    out, todo = [], [(-bound, bound, var(-bound), var(bound))]
    while todo:
        l, u, a, b = todo.pop()
        if a == b:
            continue
        if a - b == 1:
            out.append((l, u))
            continue
        m, j = (l + u) / 2, 1
        while not sign_at(sf, m):
            m = l + (u - l) * Fraction(2 ** j - 1, 2 ** (j + 1) + j)
            j += 1
        k = var(m)
        todo.append((l, m, a, k))
        todo.append((m, u, k, b))
    out.sort()
    CACHE[v] = r = (sf, chain, out)
    return r


class Ideal(object):
    def __init__(self, gens):
        r = max([g.ring for g in gens], key=lambda r: r.n)
        self.r = r
        self.g = [r(g) for g in gens]

    def groebner_basis(self):
        """reduced"""
        r = self.r
        g = [p / p.lc() for p in self.g if p.terms]
        pairs = list(itertools.combinations(range(len(g)), 2))
        while pairs:
            i, j = pairs.pop()
            a, b = g[i]._lead(), g[j]._lead()
            m = tuple([max(x, y) for x, y in zip(a, b)])
            s = Poly(r, {tuple([x - y for x, y in zip(m, a)]): Fraction(1)}) \
                * g[i] - \
                Poly(r, {tuple([x - y for x, y in zip(m, b)]): Fraction(1)}) \
                * g[j]
            s = s.reduce(g)
            if s.terms:
                g.append(s / s.lc())
                pairs += [(k, len(g) - 1) for k in range(len(g) - 1)]
        out = []
        for i, p in enumerate(g):
            e = p._lead()
            if [1 for k, q in enumerate(g) if k != i and
                all([x >= y for x, y in zip(e, q._lead())]) and
                    (q._lead() != e or k < i)]:
                continue
            out.append(p)
        out = [p.reduce([q for q in out if q is not p]) for p in out]
        return out or [r(0)]


# ------------------------------------------------------------- 0-1 programs
class Lin(object):
    def __init__(self, c, k=0):
        self.c, self.k = c, k

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c, self.k + o)
        c = dict(self.c)
        for i, w in o.c.items():
            c[i] = c.get(i, 0) + w
        return Lin(c, self.k + o.k)
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, w):
        return Lin(dict([(i, k * w) for i, k in self.c.items()]), self.k * w)
    __rmul__ = __mul__

    def value(self, x):
        return sum([w for i, w in self.c.items() if x[i]]) + self.k

    def __ge__(self, o):
        return ('>=', self - o)

    def __le__(self, o):
        return ('<=', self - o)

    def __eq__(self, o):
        return ('==', self - o)

    __hash__ = None


class MIPSolverException(RuntimeError):
    pass


class MIPVariable(object):
    def __init__(self):
        self.seen = set()

    def __getitem__(self, i):
        self.seen.add(i)
        return Lin({i: 1})


class MixedIntegerLinearProgram(object):
    def __init__(self, maximization=True, **k):
        self.sense = -1 if maximization else 1
        self.cons = []
        self.obj = Lin({})
        self.vars = []

    def new_variable(self, binary=False, **k):
        v = MIPVariable()
        self.vars.append(v)
        return v

    def add_constraint(self, c):
        if c is True:
            return
        self.cons.append(c)

    def set_objective(self, o):
        self.obj = o if isinstance(o, Lin) else Lin({}, o or 0)

    def show(self):
        pass

    def solve(self):
        names = sorted(self.vars[0].seen)
        best, value = [], None
        for bits in itertools.product((0, 1), repeat=len(names)):
            x = dict(zip(names, bits))
            if [1 for op, e in self.cons if not
                {'>=': e.value(x) >= 0, '<=': e.value(x) <= 0,
                 '==': e.value(x) == 0}[op]]:
                continue
            v = self.sense * self.obj.value(x)
            if value is None or v < value:
                best, value = [], v
            if v == value:
                best.append(x)
        if not best:
            raise MIPSolverException('no feasible solution')
        self.x = best[RNG.below(len(best))]
        return self.sense * value

    def get_values(self, v):
        return dict([(i, float(self.x[i])) for i in v.seen])


# ------------------------------------------------------------------- session
class Field(object):
    def __call__(self, v):
        return frac(v)

    def __getitem__(self, name):
        return ring(1)

    def __repr__(self):
        return 'Rational Field'


class Real(object):
    def __init__(self, v):
        self.v = v

    def exact_rational(self):
        return frac(self.v)

    def __float__(self):
        return float(self.v)


def floor(v):
    v = frac(v)
    return Fraction(v.numerator // v.denominator)


def ceil(v):
    return -floor(-frac(v))


def parent(v):
    return v.parent() if isinstance(v, Poly) else Field()


RNG = None


def session(rng):
    """The names a Sage session starts with."""
    global RNG
    RNG = rng
    QQ = Field()
    return {
        'QQ': QQ, 'RR': Real, 'true': True, 'false': False,
        'PolynomialRing': lambda f, name, n, order=None: ring(n),
        'parent': parent, 'floor': floor, 'ceil': ceil,
        'join': lambda words, sep=' ': sep.join([str(w) for w in words]),
        'ideal': lambda *g: Ideal(list(g[0]) if len(g) == 1 and
                                  isinstance(g[0], (list, tuple))
                                  else list(g)),
        'MixedIntegerLinearProgram': MixedIntegerLinearProgram,
        'sage_eval': lambda s: Fraction(s),
        'Integer': int, 'RealNumber': Fraction,
    }
