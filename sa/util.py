"""Helpers shared by the rules."""
from . import core, interp
from .core import *
from .spec import *


def budget(n=400000):
    """A fresh diagram budget for one analysis pass."""
    core.NODE_LIMIT = core._ncount[0] + n


def leaf(root, *path, **kw):
    """The symbolic initial value of a memory cell."""
    return mkT("ld", mkT("obj", root), tuple(path), **kw)


def proot(f, i):
    p = f.d["params"][i]
    return ("P", i, p["n"])


THIS = ("P", "this")


def run(ctx, f, opaque=(), args=None, this=None, setup=None, n=400000, hook=None, unroll=4, **kw):
    """One dataflow pass over f. setup(I, st) prepares the entry memory."""
    budget(n)
    P = ctx.P()
    I = interp.Interp(P, opaque=opaque, **kw)
    I.opaque_hook, I.unroll = hook, unroll
    st = interp.St()
    if setup:
        setup(I, st)
    st, v, rl = I.run(f, args=args, this=this, st=st)
    ctx.analysed(I)
    return I, st, v, rl


def gaps(I):
    """Constructs the pass could not interpret (the result is then not a verdict)."""
    return ["%s" % (u,) for u in I.unsupported]


def enumval(ctx, name):
    for p, d in ctx.P().protos.items():
        if name in d["enums"]:
            return d["enums"][name]
    from .runner import Anchor
    raise Anchor("enum %s not found in the message definitions" % name)


def message(ctx, name):
    for p, d in ctx.P().protos.items():
        if name in d["messages"]:
            return d["messages"][name]
    from .runner import Anchor
    raise Anchor("message %s not found in the message definitions" % name)


def cubes_of(d, limit=4000):
    """(literals, leaf) pairs of a diagram."""
    out = []

    def go(x, lits):
        if len(out) > limit:
            raise AnalysisLimit("too many cubes")
        if isinstance(x, N):
            go(x.hi, lits + [(x.v, True)])
            go(x.lo, lits + [(x.v, False)])
        else:
            out.append((lits, x))
    go(d, [])
    return out


def pair(*ds):
    """One diagram with tuple leaves."""
    return dd_apply(lambda *a: mkT("tuple", *a), *ds)


def mentions(d, pred):
    return any(pred(t) for t in term_subterms(d))


def short(s, n=300):
    s = str(s)
    return s if len(s) <= n else s[:n] + "..."


def nonneg(y, lits, depth=6):
    """Syntactic certificate that y >= 0 under the literals, looking through
    monotone rounding."""
    if y.nn or cert_nonneg(y, lits):
        return True
    if depth == 0:
        return False
    if y.op in ("floor", "round", "ceil", "trunc", "sqrt", "fabs"):
        return nonneg(y.args[0], lits, depth - 1)
    if y.op == "poly" and len(y.args) == 1:
        (m, c), = y.args
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not (a.nn or nonneg(a, lits, depth - 1)):
                return False
        return True
    # factor a common non-negative unit: u*x - u*y ...
    if y.op == "poly":
        common = None
        for m, c in y.args:
            s = {a for a, e in m if a.nn}
            common = s if common is None else common & s
        for u in common or ():
            z = t_fdiv(y, u)
            if z is not y and cert_nonneg(z, lits):
                return True
    return False


# ------------------------------------------------------------- event trees
def walk(evs, stack=()):
    """(event, enclosing loops, position) in program order."""
    for i, e in enumerate(evs):
        if isinstance(e, interp.Loop):
            for x in walk(e.ev, stack + (e,)):
                yield x[0], x[1], (i,) + x[2]
        else:
            yield e, stack, (i,)


def loops_of(evs):
    for e in evs:
        if isinstance(e, interp.Loop):
            yield e
            for x in loops_of(e.ev):
                yield x


def named(evs, *names):
    return [(e, s, pos) for e, s, pos in walk(evs) if e.kind in ("call", "ctor", "virt", "async") and e.name in names and e.pc is not FALSE]


def body_pc(L):
    return dd_and(L.pc, L.cond if L.cond is not None else TRUE)


def ld_of(t):
    """(root, path) of a memory leaf, else None."""
    if t.op == "ld" and t.args[0].op == "obj":
        return t.args[0].args[0], t.args[1]
    return None


def single(d):
    """The leaf of a constant diagram, else None."""
    return d if isinstance(d, T) else None


def under(d, c):
    """d restricted to condition c."""
    return dd_restrict(d, c) if c is not TRUE else d


def mu_init_back(I, t):
    """(loop, loc, entry value, back value) of a loop-carried term."""
    if t.op != "mu":
        return None
    L = I.loops.get(t.args[0])
    if L is None:
        return None
    loc = t.args[1]
    kd = I.kinds.get(loc, "?")
    return L, loc, I.load(L.entry, loc, kd), (I.load(L.back, loc, kd) if L.back.pc is not FALSE else None)


# ----------------------------------------------------------- containers
def loops_with_parents(evs, stack=()):
    for e in evs:
        if isinstance(e, interp.Loop):
            yield e, stack
            for x in loops_with_parents(e.ev, stack + (e,)):
                yield x


class Append:
    """One loop that appends to container C: `pc` is the condition (in the
    loop's back state) under which an element is appended, at index hd."""
    __slots__ = ("L", "stack", "hd", "pc", "odd")


def append_sites(I, C):
    """Innermost loops that append to container C."""
    out = []
    for L, stack in loops_with_parents(I.ev):
        no = C + ("$n",)
        if no not in L.mods or L.back.pc is FALSE:
            continue
        if any(no in m.mods for m in loops_of(L.ev)):
            continue
        a = Append()
        a.L, a.stack = L, stack
        hd, bk = I.load(L.head, no, "u"), I.load(L.back, no, "u")
        a.hd = hd
        plus = dd_apply(lambda x, y: TRUE if t_sub(x, y) is ONE else FALSE, bk, hd)
        zero = dd_apply(lambda x, y: TRUE if x is y else FALSE, bk, hd)
        a.pc = dd_and(L.back.pc, plus)
        a.odd = dd_and(L.back.pc, dd_not(dd_or(plus, zero)))
        out.append(a)
    return out


def elem(I, st, C, i, f=None, kind="f"):
    """Load element i (diagram) of container C, or its field f."""
    suf = () if f is None else (f,)
    return dd_apply(lambda x: x, dd_apply(lambda x: _e(I, st, C, x, suf, kind), i))


def _e(I, st, C, x, suf, kind):
    return I.load(st, C + ("[]", x) + suf, kind)


def last(I, st, C, f=None, kind="f"):
    n = I.load(st, C + ("$n",), "u")
    return elem(I, st, C, dd_apply(lambda x: t_sub(x, ONE), n), f, kind)


def at_state(I, L, d, st, kap=None):
    """The head-state expression d of loop L, evaluated in state st instead; kap: the loop counter in that state."""
    def f(t):
        if t.op == "mu" and t.args[0] == L.lid:
            loc = t.args[1]
            return _idx(I.load(st, loc, I.kinds.get(loc, "?")))
        if t is L.kappa and kap is not None:
            return kap
        if t.op == "ld" and t.args[0].op == "mu" and t.args[0].args[0] == L.lid:
            base = t.args[0].args[1]
            path = tuple(subst_term(x, f) if isinstance(x, (T, N)) else x for x in t.args[1])
            ns = [x for x in path if isinstance(x, N)]
            if not ns:
                return I.load(st, base + path, "i" if t.isint else "f")

            def ld(*vs):
                it = iter(vs)
                return I.load(st, base + tuple(next(it) if isinstance(x, N) else x for x in path), "i" if t.isint else "f")
            return dd_apply(ld, *ns)
        return None
    return subst_term(d, f)


def implies(c, d, dom=TRUE):
    """c && dom => d, and a witness of the contrary."""
    x = prune(dd_and(dd_and(c, dom), dd_not(d)))
    return x is FALSE, x


def full_loop(ctx, R, inst, I, L, n, pc=TRUE):
    """L visits 0..n-1 without early exit."""
    ok = differ(L.cond, dd_apply(lambda c: t_lt(L.kappa, c), n), dd_and(L.pc, pc)) is FALSE
    brk = [b for b in L.breaks if b.pc is not FALSE]
    ctx.check(R, inst, L.where, ok and not brk, "the loop does not visit every element once: it %s" % (
        "is left early" if brk else "runs while " + short(showdd(L.cond, 3))))
    return ok


def exit_cases(I, t, c):
    """A value in terms of the exit iteration of a counted loop, split into
    'left at once' and 'left after the last iteration that held'."""
    ks = [y for y in term_subterms(t) if y.op == "kappa"]
    if not ks:
        return [(t, c)]
    if len(ks) > 1:
        return None
    k = ks[0]
    L = next((l for l in I.loops.values() if l.kappa is k), None)
    if L is None or [b for b in L.breaks if b.pc is not FALSE]:
        return None
    out = []
    z = lambda x: ZERO if x is k else None
    p = lambda x: t_sub(k, ONE) if x is k else None
    c0 = dd_and(c, dd_not(L.cond))
    a, b = subst_term(t, z), subst_term(c0, z)
    if b is not FALSE:
        out.append((a, b))
    b = dd_and(dd_and(c0, subst_term(dd_and(L.cond, body_pc(L)), p)), (V(k) >= 1).d)
    if b is not FALSE:
        out.append((t, b))
    return out


def _idx(d):
    return dd_apply(lambda t: t.args[1] if t.op == "it" else t, d)


def unroll(I, d, only=None):
    """Replace loop-carried variables whose next value does not depend on any carried variable of the same loop by their
    closed form: the entry value in the first iteration, the last iteration's value afterwards."""
    memo = {}

    def form(lid, loc, isint):
        key = (lid, loc)
        if key in memo:
            return memo[key]
        memo[key] = None
        L = I.loops.get(lid)
        if L is None or L.back.pc is FALSE:
            return None
        kd = I.kinds.get(loc, "?")
        b = _idx(under(I.load(L.back, loc, kd), L.back.pc))
        if mentions(b, lambda t: (t.op == "mu" and t.args[0] == lid) or t.op == "ev"):
            return None
        e = _idx(I.load(L.entry, loc, kd))
        p = subst_term(b, lambda t: t_sub(L.kappa, ONE) if t is L.kappa else None)
        memo[key] = dd_ite((V(L.kappa) < 1).d, e, p)
        return memo[key]

    def f(t):
        if t.op == "mu" and (only is None or t.args[0] == only):
            return form(t.args[0], t.args[1], t.isint)
        return None
    return subst_term(d, f)


def at_exit(I, d):
    """Values of loop-carried variables after a counted loop without early exit: its counter is its trip count."""
    def f(t):
        if t.op == "kappa":
            for L in I.loops.values():
                if L.kappa is t and not [b for b in L.breaks if b.pc is not FALSE]:
                    return I._trip_count(L.cond, L.kappa, L.lid, L.pc)
        return None
    return subst_term(d, f)


# ------------------------------------------------- equality of rational terms
_MP = (1 << 61) - 1


def _mod_eval(t, salt, memo):
    """The value of an arithmetic term in a prime field, atoms at pseudo-random points."""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "num":
        x = Fraction(t.args[0])
        r = x.numerator % _MP * pow(x.denominator, _MP - 2, _MP) % _MP
    elif t.op == "poly":
        r = 0
        for m, c in t.args:
            c = Fraction(c)
            v = c.numerator % _MP * pow(c.denominator, _MP - 2, _MP) % _MP
            for a, e in m:
                b = _mod_eval(a, salt, memo)
                v = v * pow(b if e > 0 else pow(b, _MP - 2, _MP), abs(e), _MP) % _MP
            r = (r + v) % _MP
    elif t.op == "inv":
        r = pow(_mod_eval(t.args[0], salt, memo), _MP - 2, _MP)
    else:
        import hashlib
        key = repr((salt, t.op, [(_mod_eval(a, salt, memo) if _numeric_term(a) else str(a.id) if isinstance(a, T) else repr(a)) for a in t.args]))
        r = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], "big") % _MP
    memo[t] = r
    return r


def _numeric_term(a):
    return isinstance(a, T) and a.op in ("num", "poly", "inv", "sqrt", "log", "exp", "fabs", "floor", "round")


def rat_same(x, y):
    """x and y are the same rational function of their atoms (identity test at
    three points of a prime field)."""
    if x is y:
        return True
    if not (isinstance(x, T) and isinstance(y, T)) or x.op in ("str", "nan") or y.op in ("str", "nan"):
        return False
    return all(_mod_eval(x, k, {}) == _mod_eval(y, k, {}) for k in range(3))


def rat_differ(a, b, dom=TRUE):
    """The conditions within dom on which the leaves differ as rational functions."""
    d = dd_apply(lambda x, y: FALSE if rat_same(x, y) else TRUE, a, b)
    d = dd_and(dom, d)
    if not isinstance(d, N):
        return d
    d = dd_and(d, differ(a, b, dom))
    return prune(d)
