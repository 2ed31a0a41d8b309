"""Normal form of real terms as quotients of polynomials.

Used to preprocess equality obligations before they go to the solver: the
difference of the two sides is put over a factored common denominator, so that the
solver receives a polynomial disequality without divisions.
"""
from fractions import Fraction

import z3

from .core import const_of

LIMIT = 6000


class TooBig(Exception):
    pass


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_key(p):
    """Canonical (monic) form of a polynomial: (key, leading coefficient)."""
    items = sorted(p.items())
    lc = items[-1][1]
    return tuple((m, c / lc) for m, c in items), lc


class Norm:
    def __init__(self):
        self.memo = {}
        self.atoms = {}  # ast id -> (index, expr)
        self.keep = []

    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms:
            self.atoms[i] = (len(self.atoms), e)
        return {((self.atoms[i][0], 1),): Fraction(1)}

    # fraction = (poly, {factor_key: power})
    def f_add(self, a, b, k=1):
        (pa, da), (pb, db) = a, b
        if not pa:
            return ({m: k * c for m, c in pb.items()}, db)
        if not pb:
            return a
        if da == db:
            return (p_add(pa, pb, k), da)
        l = dict(da)
        for f, e in db.items():
            l[f] = max(l.get(f, 0), e)
        for f, e in l.items():
            ea, eb = e - da.get(f, 0), e - db.get(f, 0)
            fp = dict(f)
            for _ in range(ea):
                pa = p_mul(pa, fp)
            for _ in range(eb):
                pb = p_mul(pb, fp)
        return (p_add(pa, pb, k), l)

    def f_mul(self, a, b):
        (pa, da), (pb, db) = a, b
        if not pa or not pb:
            return ({}, {})
        # cancel common factors
        pa, db = self.cancel(pa, db)
        pb, da = self.cancel(pb, da)
        l = dict(da)
        for f, e in db.items():
            l[f] = l.get(f, 0) + e
        return (p_mul(pa, pb), l)

    def cancel(self, p, d):
        if not d or not p:
            return p, d
        k, lc = p_key(p)
        if k in d:
            d = dict(d)
            d[k] -= 1
            if not d[k]:
                del d[k]
            return {(): lc}, d
        # single-variable factors of a monomial
        if len(p) == 1:
            (m, c), = p.items()
            for x, e in m:
                fk = ((((x, 1),), Fraction(1)),)
                while fk in d and e > 0:
                    d = dict(d)
                    d[fk] -= 1
                    if not d[fk]:
                        del d[fk]
                    e -= 1
                    mm = dict(m)
                    mm[x] -= 1
                    if not mm[x]:
                        del mm[x]
                    m = tuple(sorted(mm.items()))
            return {m: c}, d
        return p, d

    def f_inv(self, a):
        p, d = a
        if not p:
            raise TooBig()
        num = {(): Fraction(1)}
        for f, e in d.items():
            for _ in range(e):
                num = p_mul(num, dict(f))
        if len(p) == 1:
            (m, c), = p.items()
            den = {}
            for x, e in m:
                den[((((x, 1),), Fraction(1)),)] = e
            num = {mm: cc / c for mm, cc in num.items()}
            return (num, den)
        k, lc = p_key(p)
        return ({mm: cc / lc for mm, cc in num.items()}, {k: 1})

    def frac(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(e)
        c = const_of(e)
        if c is not None:
            r = (p_const(c), {})
        else:
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_ADD:
                r = self.frac(ch[0])
                for x in ch[1:]:
                    r = self.f_add(r, self.frac(x))
            elif k == z3.Z3_OP_SUB:
                r = self.frac(ch[0])
                for x in ch[1:]:
                    r = self.f_add(r, self.frac(x), -1)
            elif k == z3.Z3_OP_UMINUS:
                p, d = self.frac(ch[0])
                r = ({m: -v for m, v in p.items()}, d)
            elif k == z3.Z3_OP_MUL:
                r = self.frac(ch[0])
                for x in ch[1:]:
                    r = self.f_mul(r, self.frac(x))
            elif k == z3.Z3_OP_DIV:
                r = self.f_mul(self.frac(ch[0]), self.f_inv(self.frac(ch[1])))
            else:
                r = (self.atom(e), {})
        self.memo[i] = r
        return r

    def poly_expr(self, p):
        """z3 term of a polynomial."""
        by = {v[0]: v[1] for v in self.atoms.values()}
        terms = []
        for m, c in sorted(p.items()):
            t = z3.RealVal(str(c))
            for x, e in m:
                for _ in range(e):
                    t = t * by[x]
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]


def numerator(diff):
    """Polynomial numerator of a term; None if it got too large.

    The term is zero iff the numerator is, because every divisor is nonzero on
    the path (divisors that can vanish fork the path)."""
    n = Norm()
    try:
        p, _ = n.frac(diff)
    except (TooBig, RecursionError):
        return None
    return n.poly_expr(p)


def same_up_to_rounding(x, y, tol=Fraction(1, 10**12)):
    """x and y agree monomial by monomial, up to the rounding of their constants."""
    n = Norm()
    try:
        (pa, da), (pb, db) = n.frac(x), n.frac(y)
        l = dict(da)
        for f, e in db.items():
            l[f] = max(l.get(f, 0), e)
        for f, e in l.items():
            fp = dict(f)
            for _ in range(e - da.get(f, 0)):
                pa = p_mul(pa, fp)
            for _ in range(e - db.get(f, 0)):
                pb = p_mul(pb, fp)
    except (TooBig, RecursionError):
        return False
    top = max([abs(c) for c in pa.values()] + [abs(c) for c in pb.values()], default=0)
    for m in set(pa) | set(pb):
        a, b = pa.get(m, 0), pb.get(m, 0)
        # (constants such as cos(pi/2) are not exactly zero either)
        if abs(a - b) > max(tol * max(abs(a), abs(b)), top / 10**15):
            return False
    return True


def first_ite(e, seen=None):
    """An innermost if-then-else node inside a term, or None."""
    seen = set() if seen is None else seen
    stack = [e]
    best = None
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                inner = first_ite(x.arg(0))
                return inner if inner is not None else x
            stack.extend(x.children())
    return best
