"""Value terms and decision diagrams.

Values that flow through the program are *terms* in normal form (linear
arithmetic in polynomial normal form, everything else hash-consed), and a value
that depends on control flow is a decision diagram whose inner nodes are
normalised comparison atoms and whose leaves are terms.  Two fragments of code
that compute the same thing by different control structure (early return, nested
if, conditional expression, helper function) therefore yield the same diagram.
No solver is involved; the only theory is ordering of cuts on one linear form
and exclusivity of equalities with constants.
"""
from fractions import Fraction

import math


class AnalysisLimit(Exception):
    pass


class T:
    __slots__ = ("op", "args", "id", "isint", "nn", "enum", "h", "tag", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_terms = {}
_tlist = []


def mkT(op, *args, isint=False, nn=False, enum=False, tag=None):
    key = (op, args)
    t = _terms.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tlist)
        t.isint = isint
        t.nn = nn
        t.enum = enum
        t.tag = tag
        _terms[key] = t
        _tlist.append(t)
    else:
        if isint:
            t.isint = True
        if nn:
            t.nn = True
        if enum:
            t.enum = True
        if tag is not None and t.tag is None:
            t.tag = tag
    return t


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mkT("fspecial", repr(v))
        v = Fraction(v)
    elif isinstance(v, (int, str)):
        v = Fraction(v)
    return mkT("num", v, isint=(v.denominator == 1), nn=(v >= 0))


NAN = mkT("nan")


def is_nan(t):
    """A value computed from NaN (comparisons with it are false)."""
    if t is NAN:
        return True
    if t.op == "poly":
        return any(is_nan(a) for m, c in t.args for a, e in m)
    if t.op in ("inv", "fdiv", "sqrt", "exp", "log", "fabs"):
        return any(is_nan(a) for a in t.args if isinstance(a, T))
    return False


ZERO = num(0)
ONE = num(1)
TRUE = ONE
FALSE = ZERO


def string(s):
    return mkT("str", s)


def is_num(t):
    return isinstance(t, T) and t.op == "num"


# ---------------------------------------------------------------- polynomials
# poly args: tuple of (monomial, coef) sorted; monomial = tuple of (T, exp).

def _as_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def _from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), _mono_key(kv[0]))))
    isint = all(c.denominator == 1 and all(a.isint and e > 0 for a, e in m) for m, c in d.items())
    nn = all(c >= 0 and all(a.nn for a, e in m) for m, c in d.items())
    if len(items) > 400:
        raise AnalysisLimit("polynomial too large")
    return mkT("poly", *items, isint=isint, nn=nn)


def _special(*ts):
    return any(t.op == "fspecial" for t in ts)


def t_add(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] + b.args[0])
    if _special(a, b):
        return mkT("fadd", *sorted((a, b)))
    if a.op == "str" or b.op == "str" or a.op == "cat" or b.op == "cat":
        return t_cat(a, b)
    d = dict(_as_poly(a))
    for m, c in _as_poly(b).items():
        d[m] = d.get(m, 0) + c
    return _from_poly(d)


def t_scale(a, k):
    return _from_poly({m: c * k for m, c in _as_poly(a).items()})


def t_neg(a):
    if _special(a):
        return mkT("fneg", a)
    return t_scale(a, Fraction(-1))


def t_sub(a, b):
    if _special(a, b):
        return mkT("fsub", a, b)
    return t_add(a, t_neg(b))


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def t_mul(a, b):
    if _special(a, b):
        return mkT("fmul", *sorted((a, b)))
    pa, pb = _as_poly(a), _as_poly(b)
    if len(pa) * len(pb) > 2000:
        raise AnalysisLimit("polynomial product too large")
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _from_poly(d)


def t_inv(b):
    if b.op == "num":
        if b.args[0] == 0:
            return mkT("inf")
        return num(1 / b.args[0])
    if b.op == "inv":
        return b.args[0]
    if b.op == "poly" and len(b.args) == 1:
        (m, c), = b.args
        r = _from_poly({tuple((x, -e) for x, e in m if not (x.op == "inv" and e > 0)): 1 / c})
        for x, e in m:
            for _ in range(e if x.op == "inv" else 0):
                r = t_mul(r, x.args[0])
        return r
    if b.op == "poly":
        common = None
        for m, c in b.args:
            d = {x: e for x, e in m if e > 0}
            common = d if common is None else {x: min(e, d[x]) for x, e in common.items() if x in d}
        if common:
            rest = _from_poly({tuple((x, e - common.get(x, 0)) for x, e in m if e != common.get(x, 0)): c for m, c in b.args})
            return t_mul(t_inv(_from_poly({tuple(sorted(common.items(), key=lambda y: y[0].id)): Fraction(1)})), t_inv(rest))
        # factor out the leading coefficient so that inv() is canonical
        lead = b.args[-1][1]
        bb = t_scale(b, 1 / lead)
        return _from_poly({((mkT("inv", bb, nn=bb.nn), 1),): 1 / lead})
    return _from_poly({((b, -1),): Fraction(1)})


def t_fdiv(a, b):
    if _special(a, b):
        return mkT("fdiv", a, b)
    if b is ZERO:
        return mkT("divzero", a)
    return t_mul(a, t_inv(b))


def t_idiv(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        s = 1 if (a.args[0] >= 0) == (b.args[0] > 0) else -1
        return num(s * q)
    if b is ONE:
        return a
    return mkT("idiv", a, b, isint=True, nn=a.nn and b.nn)


def t_imod(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        q = t_idiv(a, b)
        return num(a.args[0] - q.args[0] * b.args[0])
    # a % b == a - b * (a / b)
    return t_sub(a, t_mul(b, t_idiv(a, b)))


def t_trunc(a):
    if a.isint:
        return a
    if is_num(a):
        return num(int(a.args[0]))
    return mkT("trunc", a, isint=True, nn=a.nn)


def t_cat(*parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == "cat" else (p,)):
            if q.op == "str" and q.args[0] == "":
                continue
            if q.op == "str" and out and out[-1].op == "str":
                out[-1] = string(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return string("")
    if len(out) == 1 and out[0].op in ("str", "cat"):
        return out[0]
    return mkT("cat", *out)


def t_fun(name, *args, isint=False, nn=False):
    """A pure function application."""
    if all(is_num(a) for a in args):
        v = [a.args[0] for a in args]
        if name == "floor":
            return num(math.floor(v[0]))
        if name == "ceil":
            return num(math.ceil(v[0]))
        if name == "round":
            return num(math.floor(abs(v[0]) + Fraction(1, 2)) * (1 if v[0] >= 0 else -1))
        if name == "sqrt" and v[0] in (0, 1):
            return num(v[0])
        if name == "exp" and v[0] == 0:
            return ONE
        if name == "log" and v[0] == 1:
            return ZERO
    if name in ("floor", "ceil", "round") and args[0].isint:
        return args[0]
    if name in ("floor", "ceil", "round"):
        return mkT(name, *args, isint=True, nn=args[0].nn)
    if name == "sqrt":
        nn = True
    if name == "exp":
        nn = True
    if name == "pow" and is_num(args[1]) and args[1].args[0] == 2:
        return t_mul(args[0], args[0])
    if name == "pow" and is_num(args[1]) and args[1].args[0] == Fraction(1, 2):
        return t_fun("sqrt", args[0])
    if name == "pow":
        return t_fun("exp", t_mul(args[1], t_fun("log", args[0])))
    if name == "expm1":
        return t_sub(t_fun("exp", args[0]), ONE)
    if name == "log1p":
        return t_fun("log", t_add(args[0], ONE))
    if name == "exp2":
        return t_fun("exp", t_mul(args[0], t_fun("log", num(2))))
    if name in ("log2", "log10"):
        return t_fdiv(t_fun("log", args[0]), t_fun("log", num(2 if name == "log2" else 10)))
    if name == "exp" and args[0].op == "log":
        return args[0].args[0]
    return mkT(name, *args, isint=isint, nn=nn)


def lead_split(p):
    """p = lead*q + k with q monic, without constant term. -> (q, lead, k)"""
    d = _as_poly(p)
    k = d.pop((), Fraction(0))
    if not d:
        return None, None, k
    items = sorted(d.items(), key=lambda kv: (len(kv[0]), _mono_key(kv[0])))
    lead = items[-1][1]
    q = _from_poly({m: c / lead for m, c in items})
    return q, lead, k


# ----------------------------------------------------------- decision diagrams
class N:
    __slots__ = ("v", "hi", "lo", "id", "sz")

    def __repr__(self):
        return showdd(self)


# var: (fam_id, sub) ; fam table: fam_id -> ("cut", q) | ("eqc", x) | ("nz", t)
_fams = {}
_famlist = []
_nodes = {}
_ncount = [0]
NODE_LIMIT = 3_000_000


def fam(kind, key):
    k = (kind, key)
    f = _fams.get(k)
    if f is None:
        f = len(_famlist)
        _fams[k] = f
        _famlist.append(k)
    return f


def fam_of(v):
    return _famlist[v[0]]


def _implied_true(v, w):
    """Atom v true implies atom w true (same family)."""
    k = _famlist[v[0]][0]
    return k == "cut" and w[1] >= v[1]


def mk(v, hi, lo):
    if hi is lo:
        return hi
    kind = _famlist[v[0]][0]
    if kind == "cut":
        while isinstance(hi, N) and hi.v[0] == v[0]:
            hi = hi.hi
    elif kind == "eqc":
        while isinstance(hi, N) and hi.v[0] == v[0]:
            hi = hi.lo
    while isinstance(lo, N) and lo.v == v:
        lo = lo.lo
    if hi is lo:
        return hi
    if kind == "cut" and not isinstance(hi, N) and not isinstance(lo, N):
        v = _boundary(v, hi, lo)
    key = (v, id(hi), id(lo))
    n = _nodes.get(key)
    if n is None:
        n = N()
        n.v = v
        n.hi = hi
        n.lo = lo
        _ncount[0] += 1
        n.id = _ncount[0]
        if _ncount[0] > NODE_LIMIT:
            raise AnalysisLimit("decision diagram limit")
        _nodes[key] = n
    return n


_bmemo = {}


def _boundary(v, hi, lo):
    """Where both branches agree on the boundary of the cut, the strictness of
    the comparison is immaterial: choose one form (min/max/clamp idioms)."""
    k, s = v[1]
    q = _famlist[v[0]][1]
    if s == 0 and not q.isint:
        return v
    key = (v, id(hi), id(lo))
    r = _bmemo.get(key)
    if r is not None:
        return r
    r = v
    if hi.op not in ("str", "cat", "ptr", "it", "null", "tup", "lam", "fspecial") and lo.op not in (
            "str", "cat", "ptr", "it", "null", "tup", "lam", "fspecial"):
        try:
            q2, lead, kk = lead_split(t_sub(hi, lo))
        except Exception:
            q2 = None
        if q2 is q:
            b = -kk / lead  # hi == lo exactly where q == b
            if q.isint:
                if b == k - 1:
                    r = (v[0], (k - 1, 0))
            elif b == k:
                r = (v[0], (k, 0))
    if r != v and q.nn and r[1][0] <= 0:
        r = v
    _bmemo[key] = r
    return r


def _top(*ds):
    best = None
    for d in ds:
        if isinstance(d, N) and (best is None or d.v < best):
            best = d.v
    return best


def _cof(d, v, b):
    """Cofactor of d with respect to atom v (which is the top variable)."""
    if not isinstance(d, N):
        return d
    if d.v == v:
        return d.hi if b else d.lo
    if b and d.v[0] == v[0]:
        # same family, later atom: decided by v being true
        kind = _famlist[v[0]][0]
        if kind == "cut":
            while isinstance(d, N) and d.v[0] == v[0]:
                d = d.hi
        elif kind == "eqc":
            while isinstance(d, N) and d.v[0] == v[0]:
                d = d.lo
    return d


_apply_memo = {}
_opids = {}


def dd_apply(f, *ds, memo=None):
    """Pointwise application of the leaf function f."""
    if not any(isinstance(d, N) for d in ds):
        return f(*ds)
    if memo is None:
        memo = {}
    key = tuple(id(d) for d in ds)
    r = memo.get(key)
    if r is not None:
        return r
    v = _top(*ds)
    hi = dd_apply(f, *[_cof(d, v, True) for d in ds], memo=memo)
    lo = dd_apply(f, *[_cof(d, v, False) for d in ds], memo=memo)
    r = dd_combine(v, hi, lo)
    memo[key] = r
    return r


def dd_combine(v, hi, lo):
    """ite(atom v, hi, lo) where hi/lo may have atoms above v (when f makes new ones)."""
    th = _top(hi, lo)
    if th is None or v < th:
        return mk(v, hi, lo)
    return dd_ite(mk(v, TRUE, FALSE), hi, lo)


_ite_memo = {}


def dd_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (id(c), id(a), id(b))
    r = _ite_memo.get(key)
    if r is not None:
        return r[0]
    v = _top(c, a, b)
    hi = dd_ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True))
    lo = dd_ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False))
    r = mk(v, hi, lo)
    _ite_memo[key] = (r, c, a, b)
    return r


def dd_and(a, b):
    return dd_ite(a, b, FALSE)


def dd_or(a, b):
    return dd_ite(a, TRUE, b)


def dd_not(a):
    return dd_ite(a, FALSE, TRUE)


_restr_memo = {}


def dd_restrict(d, c):
    """Simplify d using that c holds (Coudert/Madre restrict)."""
    if c is TRUE or not isinstance(d, N):
        return d
    if c is FALSE:
        return d
    key = (id(d), id(c))
    r = _restr_memo.get(key)
    if r is not None:
        return r[0]
    if c.v < d.v and not (c.v[0] == d.v[0]):
        r = dd_restrict(d, dd_or(c.hi, c.lo))
    else:
        v = min(c.v, d.v)
        ch, cl = _cof(c, v, True), _cof(c, v, False)
        if ch is FALSE:
            r = dd_restrict(_cof(d, v, False), cl)
        elif cl is FALSE:
            r = dd_restrict(_cof(d, v, True), ch)
        elif v < d.v and v[0] != d.v[0]:
            r = dd_restrict(d, dd_or(ch, cl))
        else:
            r = mk(v, dd_restrict(_cof(d, v, True), ch), dd_restrict(_cof(d, v, False), cl))
    _restr_memo[key] = (r, d, c)
    return r


def dd_implies(a, b):
    return dd_and(a, dd_not(b)) is FALSE


def leaves(d):
    out, seen, st = [], set(), [d]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, N):
            st.append(x.lo)
            st.append(x.hi)
        else:
            out.append(x)
    return out


def dd_size(d):
    seen, st = set(), [d]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, N):
            st += [x.lo, x.hi]
    return len(seen)


def cubes(d, want=None, limit=20000):
    """All (literals, leaf) of the diagram; literals: list of (atom, bool)."""
    out = []

    def go(x, lits):
        if len(out) > limit:
            raise AnalysisLimit("too many cases")
        if isinstance(x, N):
            go(x.hi, lits + [(x.v, True)])
            go(x.lo, lits + [(x.v, False)])
        elif want is None or x is want:
            out.append((lits, x))

    go(d, [])
    return out


def atoms(d):
    out, seen, st = set(), set(), [d]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, N):
            out.add(x.v)
            st += [x.lo, x.hi]
    return out


def dd_tuple(*ds):
    """Joint diagram of several values: leaves are ('tup', ...) terms."""
    return dd_apply(lambda *xs: mkT("tup", *xs), *ds)


# ----------------------------------------------------------------- comparisons
def atom_cut(q, k, s):
    """Diagram of  q < k  (s=0)  or  q <= k  (s=1); q monic linear form."""
    if q.isint:
        # normal form: q < integer
        if s == 1:
            k = Fraction(math.floor(k)) + 1
        else:
            k = Fraction(math.ceil(k))
        s = 0
    if q.nn:
        if k < 0 or (k == 0 and s == 0):
            return FALSE
    return mk((fam("cut", q), (k, s)), TRUE, FALSE)


def _clear(p):
    """Multiply by non-negative sums in denominators (they are not zero where the
    comparison is evaluated)."""
    for _ in range(8):
        if p.op != "poly":
            return p
        den = {}
        for m, c in p.args:
            for a, e in m:
                if a.op == "inv" and a.nn and e > 0:
                    den[a] = max(den.get(a, 0), e)
        if not den or len(p.args) > 60:
            return p
        f = ONE
        d = {}
        for m, c in p.args:
            m2 = dict(m)
            mul = ONE
            for a, e in den.items():
                for _ in range(e - m2.pop(a, 0)):
                    mul = t_mul(mul, a.args[0])
            mono = _from_poly({tuple(sorted(((a, e) for a, e in m2.items() if e != 0), key=lambda x: x[0].id)): c})
            for k, v in _as_poly(t_mul(mono, mul)).items():
                d[k] = d.get(k, 0) + v
        p = _from_poly(d)
    return p


def t_lt(a, b, neq_hint=False):
    """a < b"""
    if a is b:
        return FALSE
    if _special(a, b):
        return atom_nz(mkT("lt", a, b))
    p = _clear(t_sub(a, b))
    if p.op == "num":
        return TRUE if p.args[0] < 0 else FALSE
    q, lead, k = lead_split(p)  # lead*q + k < 0
    if lead > 0:
        return atom_cut(q, -k / lead, 0)
    return dd_not(atom_cut(q, -k / lead, 1))


def t_le(a, b):
    return dd_not(t_lt(b, a))


def atom_nz(t):
    if is_num(t):
        return TRUE if t.args[0] != 0 else FALSE
    return mk((fam("nz", t), 0), TRUE, FALSE)


def atom_eqc(x, c):
    return mk((fam("eqc", x), (0, c.id)), TRUE, FALSE)


NUMERIC_OPS = {"num", "poly"}


def _nonnum(t):
    return t.op in ("str", "cat", "ptr", "it", "lam", "null", "enumv", "strcat")


# iteration counters of the loops whose condition is being evaluated
COND_KAPPA = set()


def t_eq(a, b, guard=None):
    if a is b:
        return TRUE
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.op == "null" or b.op == "null":
        x = b if a.op == "null" else a
        if x.op in ("ptr", "lam"):
            return FALSE
        if x.op in ("null",):
            return TRUE
        return dd_not(atom_nz(x))
    if a.op == "it" and b.op == "it":
        if a.args[0] is b.args[0]:
            return t_eq(a.args[1], b.args[1], "it" if guard else None)
        return atom_nz(mkT("eq", *sorted((a, b))))
    if a.op == "ptr" and b.op == "ptr":
        return atom_nz(mkT("eq", *sorted((a, b))))
    for x, y in ((a, b), (b, a)):
        if x.op == "str" or (x.op == "num" and y.enum):
            return atom_eqc(y, x)
    if _nonnum(a) or _nonnum(b):
        return atom_nz(mkT("eq", *sorted((a, b))))
    if _special(a, b):
        return atom_nz(mkT("eq", *sorted((a, b))))
    p = t_sub(a, b)
    if p.op == "num":
        return TRUE if p.args[0] == 0 else FALSE
    # kappa-driven loop guards:  kappa != n  is  kappa < n
    q, lead, k = lead_split(p)
    for m, c in _as_poly(p).items() if guard and COND_KAPPA else ():
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in COND_KAPPA and abs(c) == 1 and p.isint:
            # (a-b) = +-kappa + rest ; counting towards zero from the start
            rest = t_sub(p, t_mul(num(c), m[0][0]))
            if guard != "it" and not (t_neg(rest) if c > 0 else rest).nn:
                continue
            return dd_not(t_lt(p, ZERO)) if c > 0 else dd_not(t_lt(t_neg(p), ZERO))
    return dd_and(dd_not(t_lt(a, b)), dd_not(t_lt(b, a)))


def lit_of(v, b):
    """Readable (kind, ...) of an atom literal."""
    kind, key = fam_of(v)
    return kind, key, v[1], b


# ------------------------------------------------------------------- display
_show_depth = [0]


def show(t, depth=0):
    if isinstance(t, N):
        return showdd(t)
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return ".".join(_pe(x) for x in t)
        return str(t)
    if depth > 6:
        return "…"
    d = depth + 1
    if t.op == "num":
        f = t.args[0]
        return str(f) if f.denominator < 1000 and abs(f.numerator) < 10**9 else "%g" % float(f)
    if t.op == "str":
        return repr(t.args[0])
    if t.op == "poly":
        parts = []
        for m, c in t.args:
            s = "*".join((show(a, d) if e == 1 else "%s^%d" % (show(a, d), e)) for a, e in m)
            if not s:
                s = show(num(c))
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = show(num(c)) + "*" + s
            parts.append(s)
        return "(" + " + ".join(parts) + ")"
    if t.op == "ld":
        b = t.args[0]
        return show(b, d) + "." + ".".join(_pe(x) for x in t.args[1])
    if t.op == "obj":
        return _pe(t.args[0])
    if t.op == "ptr":
        return "&" + ".".join(_pe(x) for x in t.args[0])
    if t.op == "mu":
        return "mu<%s>" % ".".join(_pe(x) for x in t.args[1])
    if t.op == "kappa":
        return "k%s" % t.args[0]
    return "%s(%s)" % (t.op, ", ".join(show(a, d) if isinstance(a, (T, N, tuple)) else str(a) for a in t.args))


def _pe(x):
    if isinstance(x, T):
        return "[" + show(x, 3) + "]"
    if isinstance(x, tuple):
        return str(x[-1]) if x and x[0] in ("P", "G") else "_".join(str(y) for y in x)
    return str(x)


def eq_const(v):
    """The constant an equality atom compares with."""
    return _tlist[v[1][1]] if fam_of(v)[0] == "eqc" else None


def showatom(v):
    kind, key = fam_of(v)
    if kind == "cut":
        k, s = v[1]
        return "%s %s %s" % (show(key), "<=" if s else "<", show(num(k)))
    if kind == "eqc":
        return "%s == %s" % (show(key), show(_tlist[v[1][1]]))
    return show(key)


def showlit(l):
    v, b = l
    s = showatom(v)
    if b:
        return s
    kind, key = fam_of(v)
    if kind == "cut":
        k, s1 = v[1]
        return "%s %s %s" % (show(key), ">" if s1 else ">=", show(num(k)))
    return "!(" + s + ")"


def showdd(d, limit=12):
    if not isinstance(d, N):
        return show(d)
    cs = cubes(d)
    out = []
    for lits, leaf in cs[:limit]:
        out.append("[" + " && ".join(showlit(l) for l in lits) + "] -> " + show(leaf))
    if len(cs) > limit:
        out.append("... %d cases" % len(cs))
    return "{" + "; ".join(out) + "}"


def term_subterms(t, seen=None):
    """All terms occurring in t (terms, diagrams, tuples)."""
    if seen is None:
        seen = set()
    st = [t]
    out = []
    while st:
        x = st.pop()
        if isinstance(x, N):
            if id(x) in seen:
                continue
            seen.add(id(x))
            kind, key = fam_of(x.v)
            st.append(key)
            if kind == "eqc":
                st.append(_tlist[x.v[1][1]])
            st += [x.hi, x.lo]
        elif isinstance(x, T):
            if id(x) in seen:
                continue
            seen.add(id(x))
            out.append(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def subst_term(t, f, memo=None):
    """Rebuild term/diagram with f applied to atomic terms (f returns a DD/T or None)."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, N):
            r = memo.get(id(x))
            if r is None:
                r = dd_ite(goatom(x.v), go(x.hi), go(x.lo))
                memo[id(x)] = r
            return r
        if isinstance(x, T):
            r = memo.get(id(x))
            if r is None:
                r = got(x)
                memo[id(x)] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    def goatom(v):
        kind, key = fam_of(v)
        nk = go(key)
        if nk is key:
            return mk(v, TRUE, FALSE)
        if kind == "cut":
            k, s = v[1]
            if s == 0:
                return dd_apply(lambda a: t_lt(a, num(k)), nk)
            return dd_apply(lambda a: t_le(a, num(k)), nk)
        if kind == "eqc":
            c = _tlist[v[1][1]]
            return dd_apply(lambda a: t_eq(a, c), nk)
        return dd_apply(atom_nz, nk)

    def got(x):
        r = f(x)
        if r is not None:
            return r
        if x.op in ("num", "str"):
            return x
        if x.op == "poly":
            acc = ZERO
            changed = False
            parts = []
            for m, c in x.args:
                p = num(c)
                for a, e in m:
                    na = go(a)
                    if na is not a:
                        changed = True
                    if e > 0:
                        for _ in range(e):
                            p = dd_apply(t_mul, p, na)
                    else:
                        for _ in range(-e):
                            p = dd_apply(t_fdiv, p, na)
                parts.append(p)
            if not changed:
                return x
            for p in parts:
                acc = dd_apply(t_add, acc, p)
            return acc
        na = tuple(go(a) if isinstance(a, (T, N, tuple)) else a for a in x.args)
        if all(p is q or p == q for p, q in zip(na, x.args)):
            return x
        if x.op in ("floor", "ceil", "round", "sqrt", "exp", "log", "pow"):
            return dd_apply(lambda *a: t_fun(x.op, *a), *na)
        if x.op == "inv":
            return dd_apply(t_inv, *na)
        if x.op == "idiv":
            return dd_apply(t_idiv, *na)
        if x.op == "trunc":
            return dd_apply(t_trunc, *na)
        # a plain operand (or part of an access path) that became a diagram: one term per case
        ns = []

        def collect(old, new):
            if isinstance(new, N) and isinstance(old, T):
                ns.append(new)
            elif isinstance(new, tuple) and isinstance(old, tuple):
                for p, q in zip(old, new):
                    collect(p, q)
        for p, q in zip(x.args, na):
            collect(p, q)
        if ns:
            def rebuild(*vs):
                it = iter(vs)

                def put(old, new):
                    if isinstance(new, N) and isinstance(old, T):
                        return next(it)
                    if isinstance(new, tuple) and isinstance(old, tuple):
                        return tuple(put(p, q) for p, q in zip(old, new))
                    return new
                return mkT(x.op, *[put(p, q) for p, q in zip(x.args, na)], isint=x.isint, nn=x.nn, enum=x.enum)
            return dd_apply(rebuild, *ns)
        return mkT(x.op, *na, isint=x.isint, nn=x.nn, enum=x.enum)

    return go(t)
