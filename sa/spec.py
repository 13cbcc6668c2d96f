"""Reference expressions: the specification side of a comparison, written in
the same normal form as the analysed values."""
from fractions import Fraction
from .core import *
from .linear import prune, infeasible


class V:
    """A value (term or diagram) with arithmetic."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d.d if isinstance(d, V) else (d if isinstance(d, (T, N)) else num(d))

    def _b(self, o, f):
        return V(dd_apply(f, self.d, V(o).d))

    def __add__(self, o): return self._b(o, t_add)
    def __radd__(self, o): return V(o)._b(self, t_add)
    def __sub__(self, o): return self._b(o, t_sub)
    def __rsub__(self, o): return V(o)._b(self, t_sub)
    def __mul__(self, o): return self._b(o, t_mul)
    def __rmul__(self, o): return V(o)._b(self, t_mul)
    def __truediv__(self, o): return self._b(o, t_fdiv)
    def __rtruediv__(self, o): return V(o)._b(self, t_fdiv)
    def __neg__(self): return V(0) - self
    def __lt__(self, o): return self._b(o, t_lt)
    def __le__(self, o): return self._b(o, t_le)
    def __gt__(self, o): return V(o)._b(self, t_lt)
    def __ge__(self, o): return V(o)._b(self, t_le)
    def eq(self, o): return self._b(o, t_eq)
    def ne(self, o): return ~self.eq(o)
    def __and__(self, o): return V(dd_and(self.d, V(o).d))
    def __or__(self, o): return V(dd_or(self.d, V(o).d))
    def __invert__(self): return V(dd_not(self.d))

    def __repr__(self):
        return showdd(self.d)


def ite(c, a, b):
    return V(dd_ite(V(c).d, V(a).d, V(b).d))


def vmin(a, b):
    return ite(V(b) < a, b, a)


def vmax(a, b):
    return ite(V(a) < b, b, a)


def fun(name, *a):
    return V(dd_apply(lambda *x: t_fun(name, *x), *[V(x).d for x in a]))


def idiv(a, b):
    return V(dd_apply(t_idiv, V(a).d, V(b).d))


def differ(a, b, under=TRUE):
    """Diagram of the conditions (within `under`) on which the leaves differ.
    Conditions that force an equality q == k under which both sides have the
    same normal form do not count (min/max and clamp idioms agree on ties)."""
    d = dd_apply(lambda x, y: FALSE if x is y else TRUE, a, b)
    d = dd_and(under, d) if under is not TRUE else d
    if not isinstance(d, N):
        return d
    return prune(_drop_ties(d, a, b))


def _drop_ties(d, a, b, limit=3000):
    out = FALSE
    n = [0]

    def go(x, lits):
        nonlocal out
        if isinstance(x, N):
            go(x.hi, lits + [(x.v, True)])
            go(x.lo, lits + [(x.v, False)])
            return
        if x is not TRUE:
            return
        n[0] += 1
        c = cube(lits)
        if c is FALSE:
            return
        if n[0] > limit or not _agree_on_tie(lits, c, a, b):
            out = dd_or(out, c)
    go(d, [])
    return out


def cube(lits):
    c = TRUE
    for v, b in lits:
        x = mk(v, TRUE, FALSE)
        c = dd_and(c, x if b else dd_not(x))
    return c


def ties(lits):
    """Equalities q == k forced by the cuts of a cube."""
    up, lo = {}, {}
    for v, b in lits:
        kind, q = fam_of(v)
        if kind != "cut":
            continue
        k, s = v[1]
        if q.isint and Fraction(k).denominator == 1 if k not in (float("inf"), float("-inf")) else False:
            if b and s == 0:
                k, s = k - 1, 1
            elif not b and s == 1:
                k, s = k + 1, 0
        if b:
            if s == 1 and (q not in up or k < up[q]):
                up[q] = k
        elif s == 0 and (q not in lo or k > lo[q]):
            lo[q] = k
    return [(q, k) for q, k in up.items() if lo.get(q) == k]


def solve_for(q, k):
    """(x, value) with q == k  <=>  x == value, for some atomic x of q."""
    items = q.args if q.op == "poly" else [(((q, 1),), 1)]
    cand = sorted({a for m, c in items for a, e in m if e == 1}, key=lambda t: (t.op != "ld", t.id))
    for x in cand:
        A, B = ZERO, ZERO
        good = True
        for m, c in items:
            es = [e for a, e in m if a is x]
            rest = tuple((a, e) for a, e in m if a is not x)
            if any(x in term_subterms(a) for a, e in rest):
                good = False
                break
            t = num(c)
            for a, e in rest:
                for _ in range(abs(e)):
                    t = t_mul(t, a) if e > 0 else t_fdiv(t, a)
            if not es:
                B = t_add(B, t)
            elif es == [1]:
                A = t_add(A, t)
            else:
                good = False
                break
        if good and A is not ZERO:
            return x, t_fdiv(t_sub(num(k), B), A)
    return None


def _agree_on_tie(lits, c, a, b):
    for q, k in ties(lits):
        s = solve_for(q, k)
        if s is None:
            continue
        x, val = s
        f = lambda t: val if t is x else None
        a1, b1 = dd_restrict(a, c), dd_restrict(b, c)
        a2, b2, c2 = subst_term(a1, f), subst_term(b1, f), subst_term(c, f)
        d = dd_and(c2, dd_apply(lambda x, y: FALSE if x is y else TRUE, a2, b2))
        if d is FALSE:
            return True
    if any(fam_of(v)[0] == "cut" for v, b in lits):
        d = dd_and(c, dd_apply(_num_differ, dd_restrict(a, c), dd_restrict(b, c)))
        return prune(d) is FALSE
    return False


def _num_differ(x, y):
    if x is y:
        return FALSE
    if _numeric(x) and _numeric(y):
        return dd_or(t_lt(x, y), t_lt(y, x))
    return TRUE


def _numeric(t):
    return t.op in ("num", "poly", "kappa", "idiv", "floor", "round") or (t.op in ("ld", "mu") and not t.enum)


def witness(d, n=40):
    """One path of a condition diagram as text."""
    def go(x, lits):
        if isinstance(x, N):
            return go(x.hi, lits + [(x.v, True)]) or go(x.lo, lits + [(x.v, False)])
        return lits if x is TRUE else None
    l = go(d, [])
    if l is None:
        return "never"
    return " && ".join(showlit(x) for x in l[:n]) + (" && ..." if len(l) > n else "") or "always"


def one_cube(d):
    def go(x, acc):
        if isinstance(x, N):
            return go(x.hi, acc + [(x.v, True)]) or go(x.lo, acc + [(x.v, False)])
        return acc if x is TRUE else None
    return go(d, [])


def cofactor_cube(d, lits):
    """Simplify d under the literals of a cube."""
    c = TRUE
    for v, b in lits:
        a = mk(v, TRUE, FALSE)
        c = dd_and(c, a if b else dd_not(a))
    return dd_restrict(d, c)


def project(d, keep):
    """Existentially quantify all atoms v for which keep(v) is false."""
    memo = {}

    def go(x):
        if not isinstance(x, N):
            return x
        r = memo.get(id(x))
        if r is None:
            h, l = go(x.hi), go(x.lo)
            r = dd_combine(x.v, h, l) if keep(x.v) else dd_or(h, l)
            memo[id(x)] = r
        return r
    return go(d)


def has_unk(*ds):
    for d in ds:
        for t in term_subterms(d):
            if t.op == "unk":
                return t
    return None


def lower_facts(lits):
    """Facts p >= 0 (terms) that follow from the literals."""
    out = []
    for v, b in lits:
        kind, key = fam_of(v)
        if kind != "cut":
            continue
        k, s = v[1]
        if b:      # key < k or <= k
            out.append((t_sub(num(k), key), s == 0))
        else:      # key >= k or > k
            out.append((t_sub(key, num(k)), s == 1))
    return out


def cert_nonneg(y, lits, depth=2):
    """A linear certificate that y >= 0 under the literals: y minus at most
    `depth` facts is syntactically non-negative."""
    if y.nn:
        return True
    fs = [f for f, _ in lower_facts(lits)]

    def go(y, i, depth):
        if y.nn:
            return True
        if depth == 0:
            return False
        for j in range(i, len(fs)):
            if go(t_sub(y, fs[j]), j, depth - 1):
                return True
        return False
    return go(y, 0, depth)
