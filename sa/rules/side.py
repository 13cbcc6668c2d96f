"""Side input: search with and without hint, flattened storage."""
from ..util import *
from ..runner import Anchor
from .. import interp

SI = "trader::SideInput::"


def index_fns(ctx):
    fs = ctx.fn(SI + "GetSideInputIndex")
    a = [f for f in fs if len(f.d["params"]) == 1]
    b = [f for f in fs if len(f.d["params"]) == 2]
    if not a or not b:
        raise Anchor("SideInput::GetSideInputIndex with and without hint")
    return a[0], b[0]


def stamps(ctx):
    """The container of timestamps, from what GetSideInputTimestamp returns."""
    f = ctx.fn(SI + "GetSideInputTimestamp", 0)
    i = mkT("i", nn=True, isint=True)
    I, st, v, rl = run(ctx, f, args=[i])
    t = single(v)
    l = ld_of(t) if t is not None else None
    if not l or l[0] != THIS or "[]" not in l[1]:
        return None, None, f
    k = l[1].index("[]")
    return (THIS,) + l[1][:k], l[1][k + 1] is i and len(l[1]) == k + 2, f


def s01(ctx):
    R = "search"
    ctx.rule(R, "the result is the last index whose timestamp is at or before the query: a search answer is the partition point of 'timestamp <= query' minus one over "
                "a range whose skipped prefix lies at or before the query, and a direct answer r is returned only where timestamp[r] <= query and r is last or "
                "timestamp[r+1] > query")
    C, plain, g = stamps(ctx)
    if C is None:
        ctx.undec(R, "timestamps", g.where, "no container of timestamps")
        return
    ctx.check(R, "timestamp", g.where, plain, "the timestamp of record i is read elsewhere")
    n = leaf(C[0], *(C[1:] + ("$n",)), nn=True)
    ts = mkT("query", isint=True)
    h = mkT("hint", isint=True)

    def T(i):
        return mkT("ld", mkT("obj", C[0]), C[1:] + ("[]", i), isint=True)
    for f, args in zip(index_fns(ctx), ([ts], [ts, h])):
        I, st, v, rl = run(ctx, f, args=args)
        nm = "hinted" if len(args) == 2 else "plain"
        if gaps(I):
            ctx.undec(R, nm, f.where, gaps(I)[0])
            continue
        dom = TRUE
        if len(args) == 2:
            # a hint is -1 or an index at or before the query
            dom = dd_or((V(h) < 0).d, dd_and((V(h) < V(n)).d, (V(T(h)) <= V(ts)).d))
        for lits, t in cubes_of(v):
            c = dd_and(cube(lits), dom)
            if c is FALSE:
                continue
            cs = exit_cases(I, t, c)
            if cs is None or any(y.op == "mu" for y in term_subterms(t)):
                ctx.undec(R, nm, f.where, "answer " + show(t))
                continue
            for t1, c1 in cs:
                for t2 in leaves(t1):
                    answer(ctx, R, nm, f, t2, dd_and(c1, dd_apply(lambda x: TRUE if x is t2 else FALSE, t1)), T, n, ts)


def answer(ctx, R, nm, f, t, c, T, n, ts):
    inst = "%s/%s" % (nm, "search" if any(y.op == "pp" for y in term_subterms(t)) else show(t))
    pps = [y for y in term_subterms(t) if y.op == "pp"]
    if pps:
        if len(pps) > 1:
            ctx.undec(R, inst, f.where, show(t))
            return
        pp = pps[0]
        lo, hi, pred = pp.args
        b = [y for y in term_subterms(pred) if y.op == "bound"]
        if t_sub(t, pp) is not num(-1):
            ctx.bad(R, inst, f.where, "the answer is partition point %s" % show(t_sub(t, pp)))
            return
        want = (V(T(b[0])) <= V(ts)).d if b else FALSE
        d = differ(pred, want)
        ctx.check(R, inst + "/before-or-at", f.where, d is FALSE, "the search is for records with %s" % short(showdd(pred, 2)))
        ctx.check(R, inst + "/to-end", f.where, same_under(hi, n, c), "the search ends at %s" % show(hi))
        if lo is ZERO:
            ctx.ok(R, inst + "/prefix", f.where)
        else:
            ok, d = implies(c, (V(T(t_sub(lo, ONE))) <= V(ts)).d)
            ctx.check(R, inst + "/prefix", f.where, ok, "the search skips records that may lie after the query: it starts at %s when %s" % (show(lo), short(witness(d))))
        return
    # a direct answer
    ok, d = implies(c, dd_and((V(t) >= -1).d, (V(t) < V(n)).d))
    ctx.check(R, inst + "/range", f.where, ok, "the answer %s may not be an index when %s" % (show(t), short(witness(d))))
    at = dd_or((V(t).eq(-1)).d, (V(T(t)) <= V(ts)).d)
    ok, d = implies(c, at)
    ctx.check(R, inst + "/before-or-at", f.where, ok, "record %s may lie after the query when %s" % (show(t), short(witness(d))))
    nx = dd_or((V(t) >= V(n) - 1).d, (V(T(t_add(t, ONE))) > V(ts)).d)
    ok, d = implies(c, nx)
    ctx.check(R, inst + "/latest", f.where, ok, "record %s may not be the latest one when %s" % (show(t), short(witness(d))))


def same_under(a, b, c):
    if a is b:
        return True
    return implies(c, (V(a).eq(b)).d)[0]


def s02(ctx):
    R = "layout"
    ctx.rule(R, "construction stores every record's timestamp and all its signals, in order; reading signal j of record i addresses i * (signals per record) + j of that "
                "storage, and reading all signals appends exactly signals 0..n-1")
    C, plain, g = stamps(ctx)
    if C is None:
        ctx.undec(R, "timestamps", g.where, "no container of timestamps")
        return
    ctx.check(R, "timestamp", g.where, plain, "the timestamp of record i is read elsewhere")
    i, j = mkT("i", nn=True, isint=True), mkT("j", nn=True, isint=True)
    # number of signals and records
    f = ctx.fn(SI + "GetNumberOfSignals", 0)
    I, st, v, rl = run(ctx, f)
    ns = single(v)
    f = ctx.fn(SI + "GetNumberOfRecords", 0)
    I, st, v, rl = run(ctx, f)
    ctx.check(R, "records", f.where, v is leaf(C[0], *(C[1:] + ("$n",)), nn=True), "the number of records is %s" % short(showdd(v, 2)))
    if ns is None or not ld_of(ns):
        ctx.undec(R, "signals", f.where, "number of signals")
        return
    # one signal
    f = ctx.fn(SI + "GetSideInputSignal", 0)
    I, st, v, rl = run(ctx, f, args=[i, j])
    t = single(v)
    l = ld_of(t) if t is not None else None
    if not l or "[]" not in l[1]:
        ctx.undec(R, "signal", f.where, short(showdd(v, 2)))
        return
    k = l[1].index("[]")
    D = (l[0],) + l[1][:k]
    want = t_add(t_mul(i, ns), j)
    ctx.check(R, "signal", f.where, l[1][k + 1] is want and len(l[1]) == k + 2, "signal j of record i is read at %s" % show(t))
    # all signals
    f = ctx.fn(SI + "GetSideInputSignals", 0)
    I, st, v, rl = run(ctx, f, args=[i, None])
    out = (proot(f, 1),)
    n0 = leaf(out[0], "$n", nn=True)
    nn = I.load(st, out + ("$n",), "u")
    if gaps(I):
        ctx.undec(R, "all-signals", f.where, gaps(I)[0])
    else:
        sites = append_sites(I, out)
        good = len(sites) == 1 and isinstance(sites[0].hd, T) and not sites[0].stack
        e = I.load(sites[0].L.entry, out + ("$n",), "u") if len(sites) == 1 and not sites[0].stack else None
        lost = differ(e, n0, sites[0].L.pc) if isinstance(e, (T, N)) else FALSE
        if lost is not FALSE and not mentions(lost, lambda t: t.op in ("mu", "unk", "ev")):
            ctx.bad(R, "all-signals/kept", sites[0].L.where, "before the signals are appended the output has %s values instead of those it had, when %s" % (short(showdd(e, 2)), short(witness(lost))))
        elif not good:
            ctx.undec(R, "all-signals", f.where, "%d append loops" % len(sites))
        else:
            a = sites[0]
            full_loop(ctx, R, "all-signals/all", I, a.L, ns)
            ctx.check(R, "all-signals/each", a.L.where, differ(a.pc, body_pc(a.L), body_pc(a.L)) is FALSE and a.odd is FALSE, "a signal is skipped or doubled")
            x = single(I.load(a.L.back, out + ("[]", a.hd), "f"))
            off = t_sub(a.hd, n0)
            ref = mkT("ld", mkT("obj", D[0]), D[1:] + ("[]", t_add(t_mul(i, ns), a.L.kappa)))
            ctx.check(R, "all-signals/order", a.L.where, off is a.L.kappa and x is ref, "the %s-th appended signal is %s" % (show(a.L.kappa), show(x) if x is not None else "?"))
    # construction
    f = ctx.fn(SI + "SideInput", 0, pred=lambda f: len(f.d["params"]) == 1)
    I, st, v, rl = run(ctx, f)
    if gaps(I):
        ctx.undec(R, "construct", f.where, gaps(I)[0])
        return
    hist = proot(f, 0)
    hn = leaf(hist, "$n", nn=True)
    some = (V(hn) >= 1).d
    x = I.load(st, (l[0],) + ld_of(ns)[1], "i")
    d = differ(x, leaf(hist, "[]", ZERO, "signal", "$n", nn=True), some)
    ctx.check(R, "construct/signals", f.where, d is FALSE, "the number of signals per record is %s" % short(showdd(under(x, some), 2)))
    d = differ(x, ZERO, dd_not(some))
    ctx.check(R, "construct/none", f.where, d is FALSE, "without records the number of signals is %s" % short(showdd(under(x, dd_not(some)), 2)))
    st_sites, d_sites = append_sites(I, C), append_sites(I, D)
    if len(st_sites) != 1 or len(d_sites) != 1 or st_sites[0].stack:
        ctx.undec(R, "construct", f.where, "%d and %d append loops" % (len(st_sites), len(d_sites)))
        return
    a, b = st_sites[0], d_sites[0]
    ctx.check(R, "construct/all", a.L.where, full_loop(ctx, R, "construct/records", I, a.L, hn) and a.odd is FALSE
              and differ(a.pc, body_pc(a.L), body_pc(a.L)) is FALSE, "a record is skipped")
    x = I.load(a.L.back, C + ("[]", a.hd), "i") if isinstance(a.hd, T) else None
    ctx.check(R, "construct/timestamp", a.L.where, a.hd is a.L.kappa and x is leaf(hist, "[]", a.L.kappa, "timestamp_sec"), "record k is stored with timestamp %s" % (
        short(showdd(x, 2)) if x is not None else "?"))
    if not b.stack or not isinstance(b.hd, T):
        ctx.undec(R, "construct/data", b.L.where, "signals are not appended record by record")
        return
    k = b.stack[-1].kappa
    sn = leaf(hist, "[]", k, "signal", "$n", nn=True)
    okn = differ(b.L.cond, t_lt(b.L.kappa, sn), dd_and(b.L.pc, TRUE)) is FALSE or differ(
        b.L.cond, dd_apply(lambda c: t_lt(b.L.kappa, c), under(I.load(b.L.entry, (l[0],) + ld_of(ns)[1], "i"), some)), dd_and(b.L.pc, some)) is FALSE
    ctx.check(R, "construct/all-signals", b.L.where, okn and not [z for z in b.L.breaks if z.pc is not FALSE], "not all signals of a record are stored: " + short(showdd(b.L.cond, 2)))
    ctx.check(R, "construct/each-signal", b.L.where, b.odd is FALSE and differ(b.pc, body_pc(b.L), body_pc(b.L)) is FALSE
              and differ(b.L.pc, body_pc(b.stack[-1]), body_pc(b.stack[-1])) is FALSE, "a signal is skipped or doubled")
    full_loop(ctx, R, "construct/data-records", I, b.stack[0], hn)
    x = I.load(b.L.back, D + ("[]", b.hd), "f")
    ctx.check(R, "construct/data", b.L.where, x is leaf(hist, "[]", k, "signal", "[]", b.L.kappa), "signal j of record k is stored as %s" % short(showdd(x, 2)))


PROPERTIES = {"S01": [s01], "S02": [s02]}
