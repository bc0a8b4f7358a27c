"""Reference models: exact, independent of the code under test.

Polynomials are lists of integers (or Fractions), coefficient i belongs to
x**i.  Runs on Python 2 (Jython) and Python 3.
"""
from __future__ import division

from fractions import Fraction


# ---------------------------------------------------------------- polynomials
def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def p_eval(p, v):
    acc = Fraction(0)
    for c in reversed(p):
        acc = acc * v + c
    return acc


def p_der(p):
    return trim([i * c for i, c in enumerate(p)][1:])


def p_mul(a, b):
    if not a or not b:
        return []
    out = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return trim(out)


def p_divmod(a, b):
    a = [Fraction(c) for c in trim(a)]
    b = [Fraction(c) for c in trim(b)]
    q = [Fraction(0)] * max(len(a) - len(b) + 1, 0)
    while len(a) >= len(b):
        c = a[-1] / b[-1]
        s = len(a) - len(b)
        q[s] = c
        for i, y in enumerate(b):
            a[i + s] -= c * y
        a = trim(a)
        if not a:
            break
    return trim(q), a


def p_gcd(a, b):
    a, b = trim(a), trim(b)
    while b:
        a, b = b, p_divmod(a, b)[1]
    if a:
        lc = Fraction(a[-1])
        a = [c / lc for c in a]
    return a


def squarefree(p):
    p = [Fraction(c) for c in trim(p)]
    if len(p) <= 2:
        return p
    g = p_gcd(p, p_der(p))
    return p_divmod(p, g)[0] if len(g) > 1 else p


def sgn(v):
    return (v > 0) - (v < 0)


def sturm(p):
    seq = [p, p_der(p)]
    while seq[-1]:
        r = p_divmod(seq[-2], seq[-1])[1]
        seq.append([-c for c in r])
    return seq[:-1]


def variations(seq, v):
    s = [sgn(p_eval(p, v)) for p in seq]
    s = [x for x in s if x]
    return sum(1 for a, b in zip(s, s[1:]) if a != b)


def isolate(p):
    """Real roots of a squarefree p as (lo, hi]: exact roots as (r, r)."""
    if len(p) < 2:
        return []
    seq = sturm(p)
    bound = 1 + max(abs(c / p[-1]) for c in p[:-1])
    out = []

    def go(lo, hi, n):
        # n roots in (lo, hi]
        if n == 0:
            return
        if p_eval(p, hi) == 0:
            out.append((hi, hi))
            n -= 1
            if n == 0:
                return
            # shrink below hi
            d = (hi - lo) / 2
            while variations(seq, hi - d) - variations(seq, hi) != 1:
                d /= 2
            hi = hi - d
            go(lo, hi, variations(seq, lo) - variations(seq, hi))
            return
        if n == 1:
            out.append((lo, hi))
            return
        mid = (lo + hi) / 2
        a = variations(seq, lo) - variations(seq, mid)
        go(lo, mid, a)
        go(mid, hi, n - a)

    go(-bound, bound, variations(seq, -bound) - variations(seq, bound))
    out.sort()
    return out


def refine(p, iv):
    lo, hi = iv
    if lo == hi:
        return iv
    mid = (lo + hi) / 2
    if p_eval(p, mid) == 0:
        return (mid, mid)
    if sgn(p_eval(p, lo)) == 0:
        # the root at lo belongs to another interval: move off it
        return (mid, hi) if sgn(p_eval(p, mid)) != sgn(p_eval(p, hi)) else \
            (lo, mid)
    if sgn(p_eval(p, mid)) != sgn(p_eval(p, hi)):
        return (mid, hi)
    return (lo, mid)


def sign_at_root(q, p, iv):
    """Sign of q at the root of the squarefree p that iv isolates."""
    q = trim(q)
    if not q:
        return 0
    if iv[0] == iv[1]:
        return sgn(p_eval(q, iv[0]))
    g = p_gcd(p, q)
    if len(g) > 1:
        gs = sturm(g)
        while True:
            lo, hi = iv
            if lo == hi:
                return sgn(p_eval(q, lo))
            if p_eval(g, lo) != 0 and p_eval(g, hi) != 0:
                if variations(gs, lo) - variations(gs, hi) > 0:
                    # p has one root in iv and g divides p
                    return 0
                break
            iv = refine(p, iv)
    qs = sturm(squarefree(q))
    while True:
        lo, hi = iv
        if lo == hi:
            return sgn(p_eval(q, lo))
        if p_eval(q, lo) != 0 and p_eval(q, hi) != 0 and \
                variations(qs, lo) == variations(qs, hi):
            return sgn(p_eval(q, hi))
        iv = refine(p, iv)


def sign_vectors(polys):
    """All sign vectors the polynomials take on the real line."""
    polys = [[Fraction(c) for c in trim(p)] for p in polys]
    prod = [Fraction(1)]
    for p in polys:
        if len(p) > 1:
            prod = p_mul(prod, squarefree(p))
            prod = squarefree(prod)
    ivs = isolate(prod) if len(prod) > 1 else []
    # make the intervals strictly disjoint
    changed = True
    while changed:
        changed = False
        for i in range(len(ivs) - 1):
            while ivs[i][1] >= ivs[i + 1][0]:
                a, b = refine(prod, ivs[i]), refine(prod, ivs[i + 1])
                ivs[i], ivs[i + 1] = a, b
                changed = True
    pts = []
    if not ivs:
        pts = [Fraction(0)]
    else:
        pts = [ivs[0][0] - 1]
        for a, b in zip(ivs, ivs[1:]):
            pts.append((a[1] + b[0]) / 2)
        pts.append(ivs[-1][1] + 1)
    out = [tuple(sgn(p_eval(p, v)) for p in polys) for v in pts]
    for iv in ivs:
        out.append(tuple(sign_at_root(p, prod, iv) for p in polys))
    return out


def satisfiable(le, lt, eq, ne):
    """Is there a real x with le <= 0, lt < 0, eq = 0, ne != 0?"""
    allowed = [(-1, 0)] * len(le) + [(-1,)] * len(lt) + [(0,)] * len(eq) + \
        [(-1, 1)] * len(ne)
    for vec in sign_vectors(list(le) + list(lt) + list(eq) + list(ne)):
        if all(s in a for s, a in zip(vec, allowed)):
            return True
    return False


# -------------------------------------------------------------- sign matrices
M1 = ((1, 1, 1), (0, 1, -1), (0, 1, 1))
# inverse of M1, exact
I1 = ((Fraction(1), Fraction(0), Fraction(-1)),
      (Fraction(0), Fraction(1, 2), Fraction(1, 2)),
      (Fraction(0), Fraction(-1, 2), Fraction(1, 2)))


def sign_matrix_entry(n, i, j, inverse=False):
    base = I1 if inverse else M1
    v = Fraction(1)
    for _ in range(n):
        v *= base[i % 3][j % 3]
        i //= 3
        j //= 3
    return v
