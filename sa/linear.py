"""Feasibility of a conjunction of linear constraints (Fourier-Motzkin over the
rationals; monomials are the variables). Used to drop contradictory paths."""
from fractions import Fraction as F
from .core import *

LIMIT = 1500


def row_of(t):
    """term -> ({monomial: coefficient}, constant); meaning: value of t"""
    if t.op == "num":
        return {}, F(t.args[0])
    items = t.args if t.op == "poly" else [(((t, 1),), 1)]
    r, c = {}, F(0)
    for m, k in items:
        if not m:
            c += F(k)
        else:
            r[m] = r.get(m, F(0)) + F(k)
    return r, c


def _nn(m):
    return all(a.nn or e % 2 == 0 for a, e in m)


def rows(lits):
    """Constraints  row . x + c >= 0  (or > 0)."""
    out = []
    for v, b in lits:
        kind, q = fam_of(v)
        if kind != "cut":
            continue
        k, s = v[1]
        if k in (float("inf"), float("-inf")):
            continue
        r, c = row_of(q)
        k = F(k)
        if b:       # q < k / q <= k
            out.append(({m: -x for m, x in r.items()}, k - c, s == 0))
            if q.isint and s == 0 and k.denominator == 1 and _introw(r, c):
                out[-1] = (out[-1][0], k - c - 1, False)
        else:       # q >= k / q > k
            out.append((dict(r), c - k, s == 1))
            if q.isint and s == 1 and k.denominator == 1 and _introw(r, c):
                out[-1] = (out[-1][0], c - k - 1, False)
    return out


def _introw(r, c):
    return c.denominator == 1 and all(x.denominator == 1 for x in r.values()) and all(a.isint and e > 0 for m in r for a, e in m)


def axioms(rs):
    """Facts about the monomials that occur."""
    out, seen, todo = [], set(), [m for r, c, s in rs for m in r]
    n = 0
    while todo and n < 60:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        n += 1
        if _nn(m):
            out.append(({m: F(1)}, F(0), False))
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            lo = hi = None
            los = his = False
            if a.op in ("floor", "ceil", "round") and len(a.args) == 1 and isinstance(a.args[0], T):
                x, c = row_of(a.args[0])
                if a.op == "floor":
                    lo, hi, los = (1, 0, True)
                elif a.op == "ceil":
                    lo, hi, his = (0, 1, True)
                else:
                    lo, hi = (F(1, 2), F(1, 2))
            elif a.op == "pp" and a.args[0].op in ("num", "poly", "ld", "mu", "pp") and a.args[1].op in ("num", "poly", "ld", "mu", "pp", "nticks"):
                for b, sg in ((a.args[0], 1), (a.args[1], -1)):
                    x, c = row_of(b)
                    r = {y: -sg * z for y, z in x.items()}
                    r[m] = r.get(m, F(0)) + sg
                    out.append((r, -sg * c, False))
                    todo += list(x)
                continue
            if lo is not None:
                # a >= x - lo ; a <= x + hi
                r = {y: -z for y, z in x.items()}
                r[m] = r.get(m, F(0)) + 1
                out.append((r, F(lo) - c, los))
                r = dict(x)
                r[m] = r.get(m, F(0)) - 1
                out.append((r, F(hi) + c, his))
                todo += list(x)
    return out


def infeasible(lits):
    """True if the literals are certainly contradictory."""
    rs = rows(lits)
    if len(rs) < 2:
        return False
    return fm(rs + axioms(rs))


def fm(rs):
    cur = {}

    def add(d, r, c, s):
        r = {m: x for m, x in r.items() if x}
        if not r:
            return c < 0 or (c == 0 and s)
        # normalise
        m0 = min(r, key=lambda m: tuple((a.id, e) for a, e in m))
        k = abs(r[m0])
        key = frozenset((m, x / k) for m, x in r.items())
        v = (c / k, not s)
        if key not in d or v < d[key]:
            d[key] = v
        return False
    for r, c, s in rs:
        if add(cur, r, c, s):
            return True
    while cur:
        vs = {}
        for key in cur:
            for m, x in key:
                p = vs.setdefault(m, [0, 0])
                p[x < 0] += 1
        m = min(vs, key=lambda z: (vs[z][0] * vs[z][1], len(z), z[0][0].id))
        pos, neg, nxt = [], [], {}
        for key, (c, ns) in cur.items():
            x = dict(key).get(m)
            if x is None:
                nxt[key] = (c, ns)
            else:
                (pos if x > 0 else neg).append((dict(key), c, not ns, x))
        if len(nxt) + len(pos) * len(neg) > LIMIT:
            return False
        for a, ca, sa, xa in pos:
            for b, cb, sb, xb in neg:
                r = {}
                for y, z in a.items():
                    r[y] = r.get(y, F(0)) + z * -xb
                for y, z in b.items():
                    r[y] = r.get(y, F(0)) + z * xa
                if add(nxt, r, ca * -xb + cb * xa, sa or sb):
                    return True
        cur = nxt
    return False


def prune(d, limit=400):
    """The condition d without its contradictory paths (unchanged when there are too many)."""
    if not isinstance(d, N):
        return d
    n = [0]
    memo = {}
    bad = []

    class Stop(Exception):
        pass

    def go(x, lits):
        if isinstance(x, N):
            h, l = go(x.hi, lits + [(x.v, True)]), go(x.lo, lits + [(x.v, False)])
            return dd_combine(x.v, h, l)
        if x is TRUE:
            n[0] += 1
            if n[0] > limit:
                raise Stop()
            if infeasible(lits):
                return FALSE
        return x
    try:
        return go(d, [])
    except Stop:
        return d
