"""Termination: every loop of the repository ends."""
import re
from ..util import *
from ..core import *
from ..linear import prune, rows, infeasible
from .. import interp
from .general import bodies, tree, nodes

NS = "trader::"
# functions with rules of their own: their calls are not entered
API = tuple(NS + x for x in (
    "EvaluateTrader", "ExecuteTrader", "EvaluateBatchOfTraders", "Trader::Update", "Trader::GetInternalState", "Account::ExecuteOrder", "Account::InitAccount", "Resample",
    "RemoveOutliers", "GetPriceHistoryGaps", "GetOutlierIndicesWithContext", "CheckPriceHistoryTimestamps", "HistorySubset", "HistorySubsetCopy", "AddMonthsToTime",
    "AddMonthsToTimestampSec", "ParseTime", "FormatTimeUTC", "SideInput::SideInput", "SideInput::GetSideInputIndex", "SideInput::GetSideInputTimestamp",
    "SideInput::GetSideInputSignals", "GetTrader", "GetBatchOfTraders", "Logger::LogExchangeState", "Logger::LogTraderState", "ReadDelimitedMessagesFromFile",
    "ReadDelimitedMessagesFromIStream", "WriteDelimitedMessagesToFile", "WriteDelimitedMessagesToOStream", "LastNOhlcTicks::Update", "Volatility::Update"))
INPUT = re.compile(r"ParseDelimitedFrom\w+$|^getline$|::getline$|operator>>$|::(read|get|readsome)$|^f(gets|read|scanf|getc)$")
GROWING = {NS + "AddMonthsToTimestampSec", NS + "AddMonthsToTime"}


def cube_dd(lits):
    c = TRUE
    for v, b in reversed(lits):
        a = mk(v, TRUE, FALSE)
        c = dd_and(a if b else dd_not(a), c)
    return c


def measure(v, b):
    """The quantity that literal (v, b) keeps non-negative."""
    kind, q = fam_of(v)
    if kind != "cut":
        return None
    k, s = v[1]
    if k in (float("inf"), float("-inf")):
        return None
    return t_sub(num(k), q) if b else t_sub(q, num(k))


class Case:
    pass


def fresh_of(L):
    """What the body reads from outside in each iteration: results of calls and of input."""
    uids, res = set(), {}
    for e, s, p in walk(L.ev):
        u = getattr(e, "uid", None)
        if u is not None:
            uids.add(u)
            res[u] = e
        if isinstance(e.res, T):
            for t in term_subterms(e.res):
                if t.op == "ev":
                    uids.add(t)
                    res[t] = e
    return uids, res


def fresh_event(t, uids, res):
    for y in term_subterms(t):
        if y in uids:
            return res.get(y)
        for a in y.args:
            if isinstance(a, T) and a in uids:
                return res.get(a)
    return None


def varying(t, L):
    return any(y is L.kappa or (y.op in ("mu", "kappa") and y.args and y.args[0] == L.lid) for y in term_subterms(t))


def next_of(I, L, t, und):
    return under(at_state(I, L, t, L.back, kap=t_add(L.kappa, ONE)), und)


def cases(I, L, back, res):
    """The ways back to the beginning, each with the next values of everything that it depends on."""
    heads = [I.load(L.head, loc, "u") for loc in L.mods if loc[-1] == "$n"]         # taking from an empty container is another matter
    heads = [h for h in heads if isinstance(h, T) and h.op != "num" and varying(h, L)]
    qs, nx, joint = [], {}, None

    def new(d, old):
        for v in atoms(d):
            kind, q = fam_of(v)
            if isinstance(q, T) and varying(q, L):
                x = q if kind == "cut" else v
                if x not in nx and x not in old:
                    old.append(x)
        return old
    todo = new(back, list(heads))
    for rnd in range(4):
        for q in todo:
            qs.append(q)
            try:
                n = next_of(I, L, q if isinstance(q, T) else mk(q, TRUE, FALSE), back)
                nx[q] = n if isinstance(n, (T, N)) else mkT("unknown")
            except (AnalysisLimit, KeyError, TypeError, AttributeError):
                nx[q] = mkT("unknown")
        joint = dd_apply(lambda *xs: mkT("tup", *xs) if xs[0] is TRUE else FALSE, back, *[nx[q] for q in qs])
        todo = new(joint, [])
        if not todo:
            break
    cs = []
    for lits, lf in cubes(joint, limit=4000):
        if lf is FALSE or infeasible(lits):
            continue
        c = Case()
        c.lits, c.und = lits, cube_dd(lits)
        c.next = dict(zip(qs, lf.args[1:]))
        c.divs = {y.args[1] for v, b in lits if isinstance(fam_of(v)[1], T) for y in term_subterms(fam_of(v)[1]) if y.op == "idiv"}
        c.meas, c.input = [], False
        for v, b in lits:
            kind, q = fam_of(v)
            if kind == "nz" and b:
                e = fresh_event(q, *res)
                if is_input(e) and q.op not in ("ateof", "iobad"):
                    c.input = True
            p = measure(v, b)
            if p is not None and (q in c.next or fresh_event(p, *res) is not None):
                c.meas.append((p, q, -1 if b else 1))
        for h in heads:
            c.meas.append((h, h, 1))
        cs.append(c)
    return cs


def change(c, q, sign):
    n = c.next.get(q)
    if n is None or n.op == "unknown":
        return None
    return t_mul(num(sign), t_sub(n, q))


def rising(t, L, res):
    """t = AddMonths applied to fixed values and a*kappa + b with a > 0."""
    if t.op[:3] == "fn:" and t.op[3:] in GROWING:
        a = t.args
    else:
        e = fresh_event(t, *res)
        if e is None or e.name not in GROWING:
            return False
        a = e.args
    if len(a) < 2 or not isinstance(a[0], T) or not isinstance(a[1], T):
        return False
    t0, k = a[0], a[1]
    fixed = [not varying(x, L) and fresh_event(x, *res) is None for x in (t0, k)]
    if fixed[1]:
        return rising(t0, L, res)
    if not fixed[0]:
        return False
    d = t_sub(subst_term(k, lambda y: t_add(L.kappa, ONE) if y is L.kappa else None), k)
    return isinstance(d, T) and d.op == "num" and d.args[0] >= 1


def grows(I, L, p, res):
    """p = B - AddMonths(t, a*kappa + b) with B, t fixed and a > 0: it falls below 0 in the end."""
    items = p.args if p.op == "poly" else [(((p, 1),), 1)]
    bad = []
    for m, c in items:
        ts = [a for a, e in m]
        if not any(varying(a, L) or fresh_event(a, *res) is not None for a in ts):
            continue
        bad.append((m, c))
    if len(bad) != 1:
        return False
    m, c = bad[0]
    if c >= 0 or len(m) != 1 or m[0][1] != 1:
        return False
    return rising(m[0][0], L, res)


def decide(ctx, R, I, L, inst):
    back = prune(L.back.pc) if L.back.pc is not FALSE else FALSE
    if back is FALSE:
        ctx.ok(R, inst, L.where)
        return
    res = fresh_of(L)
    cs = cases(I, L, back, res)
    rest = [c for c in cs if not c.input]

    def falls(q, sign, c):
        d = change(c, q, sign)
        if d is None:
            return None
        if d.op == "num":
            return "down" if d.args[0] < 0 else "same" if d.args[0] == 0 else None
        return "down" if nonneg(t_sub(t_neg(d), ONE), c.lits) or positive(t_neg(d), c.divs) else None
    progress = True
    while rest and progress:
        progress = False
        seen = set()
        for c in rest:
            for p, q0, sign in c.meas:
                if p in seen:
                    continue
                seen.add(p)
                if grows(I, L, p, res):
                    rest = [x for x in rest if not any(q is p for q, _, _ in x.meas)]
                    progress = True
                    break
                st = [falls(q0, sign, x) for x in rest]
                if None in st:
                    continue
                gone = [x for x, s in zip(rest, st) if s == "down" and any(q is p for q, _, _ in x.meas)]
                if gone:
                    rest = [x for x in rest if x not in gone]
                    progress = True
                    break
            if progress:
                break
        if not progress:
            # an iterator that walks a valid range up to its end
            for c in list(rest):
                if any(unit_walk(c, v, b) for v, b in c.lits):
                    rest.remove(c)
                    progress = True
    if not rest:
        ctx.ok(R, inst, L.where)
        return
    for c in rest:
        why = stuck(I, L, c, res)
        if why:
            ctx.bad(R, inst, L.where, "the loop goes on for ever, %s, when %s" % (why, short(witness(c.und))))
            return
    c = rest[0]
    ctx.undec(R, inst, L.where, "no bound found when " + short(witness(c.und)))


def positive(t, divs):
    """t > 0 for a term that the domain keeps positive (time is divided into periods of that length)."""
    if t.op == "poly" and len(t.args) == 1 and t.args[0][1] > 0:
        return all(e > 0 and positive(a, divs) for a, e in t.args[0][0])
    if t.op == "num":
        return t.args[0] > 0
    return t in divs and t.op in ("arg", "ld", "obj")


def unit_walk(c, v, b):
    """x != end with x one further in each iteration: q > k and q rises by one (the range is valid)."""
    kind, q = fam_of(v)
    if kind != "cut" or b:
        return False
    lo = [w for w, bb in c.lits if fam_of(w) == (kind, q) and not bb and w != v and w[1][0] == v[1][0]]
    if not lo:
        return False
    d = change(c, q, 1)
    return d is not None and d.op == "num" and abs(d.args[0]) == 1


def is_input(e):
    return e is not None and (e.kind == "in" or bool(INPUT.search(e.name)))


def no_ticks(c):
    """The path when every HistorySubset is empty (it stays empty for later times)."""
    ends = {}
    for v, b in c.lits:
        q = fam_of(v)[1]
        for y in term_subterms(q) if isinstance(q, T) else ():
            if y.op == "ld" and y.args[1] and y.args[1][-1] in ("first", "second") and isinstance(y.args[0], T) and "HistorySubset" in show(y.args[0]):
                ends.setdefault((y.args[0], y.args[1][:-1]), {})[y.args[1][-1]] = y
    m = {d["first"]: d["second"] for d in ends.values() if len(d) == 2}
    return subst_term(c.und, lambda y: m.get(y)) if m else None


def stuck(I, L, c, res):
    """Nothing that the path depends on changes, and the path can be taken in the first iteration."""
    why = "nothing changes"
    und = c.und
    if any((e := fresh_event(fam_of(v)[1], *res)) is not None and e.name == NS + "HistorySubset" for v, b in c.lits if isinstance(fam_of(v)[1], T)):
        und = no_ticks(c)
        if und is None or prune(und) is FALSE:
            return None
        why = "there are no ticks"
    failing = any(isinstance(fam_of(v)[1], T) and is_input(fresh_event(fam_of(v)[1], *res)) and fam_of(v)[0] == "nz" and not b for v, b in c.lits)
    for v, b in c.lits:
        kind, q = fam_of(v)
        if not isinstance(q, T):
            return None
        e = fresh_event(q, *res)
        if e is not None and e.name == NS + "HistorySubset":
            continue
        if is_input(e):
            why = "reading fails"
            continue
        if e is not None and not failing:
            return None
        if e is not None:
            continue
        if varying(q, L) and (c.next.get(q) is not q if kind == "cut" else c.next.get(v) is not (TRUE if b else FALSE)):
            return None
    # reachable in the first iteration
    try:
        f = at_state(I, L, und, L.entry, kap=ZERO)
    except (AnalysisLimit, KeyError, TypeError, AttributeError):
        return None
    return why if prune(f) is not FALSE and prune(dd_and(f, L.pc)) is not FALSE else None


def own_loops(f):
    return [n for t in tree(f) if t for n in nodes(t) if n.get("k") in ("for", "while", "do", "rfor")]


def entries(f):
    """Symbolic arguments, with the pointers among them given and null."""
    ps = f.d.get("params") or []
    ptrs = [i for i, p in enumerate(ps) if p["t"].rstrip().endswith("*") and f.qn != "main"]
    out = [None]
    for some in ([ptrs] if ptrs else []) + ([[i] for i in ptrs] if len(ptrs) > 1 else []):
        out.append([interp.NULL if i in some else None for i in range(len(ps))])
    return out


def g05(ctx):
    R = "ends"
    ctx.rule(R, "every loop ends: on every path back to its beginning some quantity that the path keeps bounded comes closer to its bound, or a read from a finite input "
                "succeeded; a loop that can repeat a path without changing anything the path depends on is a violation")
    P = ctx.P()
    seen = {}
    n = 0
    for f in bodies(P):
        src = own_loops(f)
        if not src:
            continue
        lo, hi = f.d.get("line"), f.d.get("eline") or 10 ** 9
        for args in entries(f):
            try:
                I, st, v, rl = run(ctx, f, opaque=[a for a in API if a != f.qn], n=800000, args=args)
            except AnalysisLimit as e:
                ctx.undec(R, f.qn, f.where, "analysis limit: %s" % e)
                continue
            if gaps(I):
                ctx.undec(R, f.qn, f.where, gaps(I)[0])
                continue
            ls = [(L, par) for L, par in loops_with_parents(I.ev) if L.file == f.d.get("file") and lo <= L.line <= hi]
            for L, par in ls:
                n += 1
                decide(ctx, R, I, L, "%s/%s" % (f.qn, seen.setdefault((f.qn, L.where), len(seen))))
    if not n:
        ctx.undec(R, "loops", "", "no loop found")


PROPERTIES = {"G05": [g05]}
