"""Accesses to containers: no element outside of them is used."""
import re
from ..util import *
from ..core import *
from ..linear import prune
from .general import bodies
from .loops import API, NS, entries, next_of


def called(P):
    """Functions called from elsewhere in the repository."""
    out = set()

    def go(n):
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                i = x.get("fn") if isinstance(x.get("fn"), dict) else None
                if i and i.get("qn"):
                    out.add(i["qn"])
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
    for f in bodies(P):
        go(f.d.get("body"))
        go(f.d.get("inits"))
    return out


def terms_of(d):
    """The terms that the cases of d depend on."""
    seen, out, st = set(), {}, [d]
    while st:
        x = st.pop()
        if not isinstance(x, N) or x in seen or x in (TRUE, FALSE):
            continue
        seen.add(x)
        q = fam_of(x.v)[1]
        for y in term_subterms(q) if isinstance(q, T) else (mkT("unknown"),):
            out[y] = 1
        st += [x.hi, x.lo]
    return out


DEBUG = False
# what a file, a flag or an argument can make true at will
FREE = {"arg", "num", "poly", "obj", "ld", "kappa", "str", "flag", "opened", "readok", "iobad", "ateof", "isok", "scan", "scanned", "read", "trunc", "sqrt", "inv"}


# functions whose result may be anything, the empty history and success included
ANY = re.compile(r"HistorySubset|ReadDelimited|ParseTime")


def free(I, d):
    """d depends on arguments, their contents and flags only: not on the object's state, values carried by loops or results of other functions."""
    for y in terms_of(d):
        if y.op == "ld" and show(y).startswith("this"):
            return False
        if y.op == "ret" and not ANY.search(show(y)[:60]):
            return False
        if y.op not in FREE and y.op not in ("ret", "ev"):
            return False
    return True


def loops_in(d):
    return sorted({y.args[0] for y in terms_of(d) if y.op in ("mu", "kappa")}, reverse=True)


def first(I, d, second=None):
    """The case in the first iteration of every loop around it (in the second one of the given loop)."""
    for k in range(20):
        ls = [x for x in loops_in(d) if x in I.loops]
        if not ls:
            return d
        L = I.loops[ls[0]]
        if L.lid == second:
            d = prune(dd_and(at_state(I, L, d, L.back, kap=t_add(L.kappa, ONE)), L.back.pc))
            second = None
            continue
        d = prune(at_state(I, L, d, L.entry, kap=ZERO))
        if d is FALSE:
            return FALSE
    return None


def content(I, d):
    """d depends on the contents of elements, beyond sizes and positions."""
    return any(y.op == "ld" and any(isinstance(x, str) and x == "[]" for x in y.args[1]) or y.op not in ("arg", "num", "poly", "obj", "ld", "kappa", "flag") for y in terms_of(d))


def definite(I, d):
    """The failing case, if it is one that some input leads to."""
    for s in [None] + [x for x in reversed(loops_in(d)) if x in I.loops]:
        try:
            f = first(I, d, s)
        except (AnalysisLimit, KeyError, TypeError, AttributeError, ValueError) as ex:
            f = None
            if DEBUG:
                print("EXC", s, repr(ex)[:200])
        if DEBUG and f is FALSE:
            print("NONE", s, short(d, 200))
        if DEBUG and isinstance(f, N) and f is not FALSE:
            print("CASE", s, free(I, f), sorted({y.op for y in terms_of(f)} - FREE), short(f, 600))
        if isinstance(f, N) and f is not FALSE and free(I, f):
            return f
    if free(I, d) and not any(y.op == "mu" for y in terms_of(d)) and not content(I, d):
        return d
    return None


def pairs(f):
    """Parameters that are the two ends of a range."""
    ps = f.d.get("params") or []
    out = []
    for i in range(len(ps) - 1):
        t = ps[i]["t"]
        if "iterator" in t and t == ps[i + 1]["t"] and (not out or out[-1][1] != i):
            out.append((i, i + 1))
    return out


def range_of(I, f, t, depth=0):
    """(begin, end) of the range that iterator t walks over."""
    if depth > 6:
        return None
    for y in term_subterms(t):
        if y.op == "arg" and y.args:
            for a, b in pairs(f):
                if y.args[0] in (a, b):
                    return argt(I, f, a), argt(I, f, b)
        if y.op == "ld" and y.args[1] and y.args[1][-1] in ("first", "second") and isinstance(y.args[0], T) and "HistorySubset" in show(y.args[0]):
            return tuple(mkT("ld", y.args[0], y.args[1][:-1] + (e,), **attrs(y)) for e in ("first", "second"))
        if y.op == "mu" and y.args[0] in I.loops:
            L = I.loops[y.args[0]]
            e = at_state(I, L, y, L.entry)
            for x in leaves(e) if isinstance(e, N) else [e]:
                if isinstance(x, T):
                    r = range_of(I, f, x, depth + 1)
                    if r:
                        return r
    return None


def argt(I, f, i):
    return mkT("arg", i)


def within(I, f, a, rng, pre):
    """The failing case of an access through iterator a["it"] over rng, where the iterators that the loops carry are
    known to stay at or before the end."""
    b, e = rng
    t = a["it"]
    bad = dd_or(dd_not(t_lt(t, e)), low(t, b))
    return prune(dd_and(dd_and(a["pc"], bad), pre))


def low(t, b):
    """t is before the beginning (iterators that loops carry forward never are)."""
    if any(y.op == "mu" for y in term_subterms(t)):
        d = t_sub(t, ZERO)
        c = sum(k for m, k in d.args if not m) if d.op == "poly" else 0
        if c >= 0:
            return FALSE
    return t_lt(t, b)


def valid(rng):
    """begin is not behind end."""
    return dd_not(t_lt(rng[1], rng[0]))


def carried(I, f, d):
    """What is known of the iterators that loops carry: they never pass the end of their range, and stay before it if
    they start before it and are only set to positions before it."""
    out = TRUE
    for y in sorted({y for y in terms_of(d) if y.op == "mu" and y.args[0] in I.loops}, key=lambda y: y.id):
        rng = range_of(I, f, y)
        if not rng:
            continue
        L = I.loops[y.args[0]]
        out = dd_and(out, dd_not(t_lt(rng[1], y)))
        try:
            out = dd_and(out, before(I, L, y, rng))
        except (AnalysisLimit, KeyError, TypeError, AttributeError, ValueError):
            pass
    return out


def before(I, L, y, rng):
    inv = t_lt(y, rng[1])
    v0 = valid(rng)
    e = at_state(I, L, inv, L.entry)
    if prune(dd_and(dd_and(L.pc, v0), dd_not(e))) is not FALSE:
        return TRUE
    back = L.back.pc
    nxt = next_of(I, L, y, back)
    step = dd_apply(lambda x: t_lt(x, rng[1]), nxt)
    # positions under the loop's own test stay at or before the end
    others = TRUE
    for z in term_subterms_of(nxt):
        if z.op == "mu" and z.args[0] == L.lid and z is not y:
            others = dd_and(others, dd_not(t_lt(rng[1], z)))
    if prune(dd_and(dd_and(dd_and(back, inv), others), dd_not(step))) is not FALSE:
        return TRUE
    return inv


def term_subterms_of(d):
    out = set()
    for x in leaves(d) if isinstance(d, N) else [d]:
        if isinstance(x, T):
            out |= set(term_subterms(x))
    return out


def g06(ctx):
    R = "inside"
    ctx.rule(R, "every element that is used lies inside its container: the position is at least the first and before the end, front, back and pop find an element, and a StatusOr is opened "
                "only if it holds a value, on every path and for every input")
    P = ctx.P()
    cl = called(P)
    res, left = {}, {}
    for f in bodies(P):
        if f.qn in cl and f.qn not in API:
            continue
        for args in entries(f):
            try:
                I, st, v, rl = run(ctx, f, opaque=[a for a in API if a != f.qn], n=800000, args=args)
            except AnalysisLimit as e:
                ctx.undec(R, f.qn, f.where, "analysis limit: %s" % e)
                continue
            if gaps(I):
                ctx.undec(R, f.qn, f.where, gaps(I)[0])
                continue
            for a in getattr(I, "accesses", ()):
                if a["what"].startswith("reserve"):
                    continue
                note(res, left, I, f, a, prune(dd_and(a["pc"], dd_not(a["cond"]))), a["what"])
            for a in getattr(I, "wraps", ()):
                note(res, left, I, f, a, prune(dd_and(a["pc"], dd_not(a["cond"]))), "unsigned difference below zero")
            for a in getattr(I, "it_accesses", ()):
                rng = range_of(I, f, a["it"])
                what = "element outside of the range"
                if rng is None:
                    continue
                pre = dd_and(valid(rng), carried(I, f, dd_and(a["pc"], t_lt(a["it"], rng[1]))))
                note(res, left, I, f, a, within(I, f, a, rng, pre), what)
    for (where, what, qn), (status, w) in sorted(res.items()):
        inst = "%s %s %s" % (qn, where, what)
        if status == "ok":
            ctx.ok(R, inst)
        elif status == "bad":
            ctx.bad(R, inst, where, "%s when %s" % (what, w))
        else:
            ctx.undec(R, inst, where, "%s, not excluded when %s" % (what, w))
    if not res:
        ctx.undec(R, "accesses", "", "no access found")


def unrolled(I, f, d, depth=0):
    """d split by how often the loops it depends on have turned: never, or at least once (as the last turn left it)."""
    ls = [x for x in loops_in(d) if x in I.loops]
    if not ls or depth > 2:
        return d
    L = I.loops[ls[-1] if depth else ls[0]]
    e = prune(dd_and(at_state(I, L, d, L.entry, kap=ZERO), L.pc))
    if e is not FALSE:
        return d
    b = dd_and(at_state(I, L, d, L.back, kap=t_add(L.kappa, ONE)), L.back.pc)
    return prune(dd_and(b, carried(I, f, b)))


def note(res, left, I, f, a, bad, what):
    k = (a["where"], what, f.qn)
    if bad is FALSE:
        res.setdefault(k, ("ok", ""))
        return
    try:
        if unrolled(I, f, bad) is FALSE:
            res.setdefault(k, ("ok", ""))
            return
    except (AnalysisLimit, KeyError, TypeError, AttributeError, ValueError):
        pass
    g = definite(I, bad)
    if g is not None and not method_contract(f, g):
        res[k] = ("bad", short(witness(g)))
        return
    if any(show(y).startswith("this") for y in terms_of(bad)) or any(y.op == "ret" and "Indices" in show(y) for y in terms_of(bad)):
        left[k] = 1     # rests on what the class keeps true, or on indices that have properties of their own
        return
    if res.get(k, ("",))[0] != "bad":
        res[k] = ("undec", short(witness(bad)))


def method_contract(f, g):
    """The case depends on an index that callers of a member function choose."""
    return bool(f.d.get("method")) and any(y.op == "arg" for y in terms_of(g))


PROPERTIES = {"G06": [g06]}
