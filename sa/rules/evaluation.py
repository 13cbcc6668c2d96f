"""Back-test engine: the per-tick protocol of ExecuteTrader, the evaluation
periods of EvaluateTrader, the batch evaluation."""
from ..util import *
from ..runner import Anchor
from .. import interp

NS = "trader::"
EXEC = NS + "Account::ExecuteOrder"
UPD = NS + "Trader::Update"
SIDX, STS, SSIG, SNUM = (NS + "SideInput::" + x for x in (
    "GetSideInputIndex", "GetSideInputTimestamp", "GetSideInputSignals", "GetNumberOfSignals"))
VUPD, VGET, VCTOR = NS + "Volatility::Update", NS + "Volatility::GetVolatility", NS + "Volatility::Volatility"
LOGX, LOGT = NS + "Logger::LogExchangeState", NS + "Logger::LogTraderState"
OPQ = (EXEC, SIDX, STS, SSIG, SNUM, VUPD, VGET, VCTOR)
H = ("H",)
HP = interp.ptr((H,))
ACCT = ("base_balance", "quote_balance", "total_fee")


class View:
    pass


def tick(i, f):
    return leaf(H, "[]", i, f)


def exec_view(ctx, side=True, log=True):
    """The value-flow view of ExecuteTrader; side input and logger given or null."""
    key = (side, log)
    c = ctx.__dict__.setdefault("_ev", {})
    if key in c:
        return c[key]
    f = ctx.fn(NS + "ExecuteTrader", 0)
    if len(f.d["params"]) != 7:
        raise Anchor("ExecuteTrader does not take its seven documented parameters")
    n = mkT("nticks", nn=True, isint=True)
    args = [None, interp.it(HP, ZERO), interp.it(HP, n), None if side else mkT("null"), mkT("arg", 4), None, None if log else mkT("null")]
    I, st, v, rl = run(ctx, f, opaque=OPQ, args=args)
    w = View()
    w.I, w.st, w.f, w.n, w.side, w.log = I, st, f, n, side, log
    w.cfg, w.tr, w.lg, w.si = proot(f, 0), proot(f, 5), proot(f, 6), proot(f, 3)
    w.name = "side input %s, logger %s" % ("given" if side else "absent", "given" if log else "absent")
    w.gaps = gaps(I)
    w.upd = named(I.ev, UPD)
    w.exe = named(I.ev, EXEC)
    w.L = w.X = None
    if w.upd and w.upd[0][1]:
        w.L = w.upd[0][1][0]
    if w.exe and w.exe[0][1] and w.exe[0][1][0] is w.L and len(w.exe[0][1]) > 1:
        w.X = w.exe[0][1][-1]
    c[key] = w
    return w


def usable(ctx, R, w, need_x=False):
    if w.gaps:
        ctx.undec(R, w.name, w.f.where, "; ".join(w.gaps[:3]))
        return False
    if not w.upd or not w.exe:
        ctx.bad(R, w.name, w.f.where, "the evaluation never %s" % ("updates the trader" if not w.upd else "executes an order"))
        return False
    if w.L is None:
        ctx.undec(R, w.name, w.upd[0][0].where, "the trader is not updated inside a loop over the ticks")
        return False
    if need_x and w.X is None:
        ctx.undec(R, w.name, w.exe[0][0].where, "orders are not executed by a loop nested in the loop over the ticks")
        return False
    return True


def dom(w):
    """Domain: tick volumes are non-negative, and the loops over the orders end."""
    if getattr(w, "dom", None) is None:
        d = (V(tick(w.L.kappa, "volume")) >= 0).d
        for X in w.L.ev:
            if isinstance(X, interp.Loop) and not X.returns:
                out = FALSE
                for s in list(X.exits) + list(X.breaks):
                    out = dd_or(out, s.pc)
                if mentions(out, lambda t: t.op == "mu"):
                    d = dd_and(d, dd_or(dd_not(X.pc), out))
        w.dom = d
    return w.dom


def nz_volume(w):
    return dd_not(V(tick(w.L.kappa, "volume")).eq(0).d)


def views(ctx, full=True):
    cfgs = [(True, True), (True, False), (False, True), (False, False)] if full else [(True, True)]
    return [exec_view(ctx, *c) for c in cfgs]


def same(a, b, und=TRUE):
    d = differ(a, b, und)
    return d is FALSE, d


def e01(ctx):
    R = "tick"
    ctx.rule(R, "in the loop over the ticks every value derived from the price history has an index not above the current iteration; "
                "the loop runs over all ticks in order")
    for w in views(ctx):
        if not usable(ctx, R, w):
            continue
        L, k = w.L, w.L.kappa
        ok, d = same(L.cond, t_lt(k, w.n), L.pc)
        if not ok and not mentions(L.cond, lambda t: t is k):
            ctx.undec(R, w.name + "/range", L.where, "the loop over the ticks does not count: " + short(showdd(L.cond, 3)))
        else:
            ctx.check(R, w.name + "/range", L.where, ok, "the loop does not visit exactly the ticks 0..n-1: it runs while %s" % short(showdd(L.cond, 3)))
        ctx.check(R, w.name + "/all-ticks", L.where, not [b for b in L.breaks if b.pc is not FALSE], "the loop over the ticks is left early")
        seen = 0
        for e, stk, pos in walk(L.ev, (L,)):
            for a in list(e.args or ()) + [e.obj, under(e.pc, body_pc(L))]:
                if not isinstance(a, (T, N)):
                    continue
                for t in term_subterms(a):
                    idx = None
                    if ld_of(t) and ld_of(t)[0] == H and len(ld_of(t)[1]) > 1:
                        idx = ld_of(t)[1][1]
                    elif t.op == "ptr" and t.args[0][0] == H and len(t.args[0]) > 2:
                        idx = t.args[0][2]
                    elif t.op == "it" and t.args[0] is HP:
                        idx = t.args[1]
                    if idx is None:
                        continue
                    seen += 1
                    df = t_sub(k, idx)
                    inst = "%s/%s@%s" % (w.name, e.name.split("::")[-1], show(idx))
                    if df.op == "num":
                        ctx.check(R, inst, e.where, df.args[0] >= 0, "%s receives a value of tick %s while tick %s is processed" % (e.name, show(idx), show(k)))
                    elif idx.op == "num" and idx.args[0] <= 0:
                        ctx.ok(R, inst, e.where)
                    else:
                        ctx.undec(R, inst, e.where, "tick index %s" % show(idx))
        if not seen:
            ctx.undec(R, w.name, L.where, "no access to the price history found")
        for e, stk, pos in w.upd + w.exe:
            j = 0 if e.name == UPD else 2
            a = e.args[j]
            want = interp.ptr((H, "[]", k))
            cp = copy_of_tick(w, e, a, k)
            ctx.check(R, "%s/%s-tick" % (w.name, e.name.split("::")[-1]), e.where, a is want or cp,
                      "%s is not given the current tick but %s" % (e.name, short(showdd(a, 2))))
        for e, stk, pos in named(L.ev, SIDX):
            ok, d = same(e.args[0], tick(k, "timestamp_sec"), dd_and(e.pc, dom(w)))
            ctx.check(R, w.name + "/side-time", e.where, ok, "the side input is queried for the time %s instead of the current tick's" % short(showdd(e.args[0], 2)))


def copy_of_tick(w, e, a, k):
    """a points to an object holding a copy of tick k."""
    if not isinstance(a, T) or a.op != "ptr" or a.args[0][0] == H:
        return False
    for f in ("timestamp_sec", "open", "high", "low", "close", "volume"):
        if w.I.load(e.st, interp.loc_of(a) + (f,), "f") is not tick(k, f):
            return False
    return True


def order_container(w):
    """Location of the container whose elements the inner loop executes."""
    e = w.exe[0][0]
    a = e.args[1]
    if isinstance(a, T) and a.op in ("ptr", "it"):
        loc = interp.loc_of(a)
        for i in range(len(loc) - 1, 0, -1):
            if loc[i] == "[]" and i + 1 < len(loc):
                return loc[:i], loc[i + 1]
    return None, None


def e02(ctx):
    R = "lifecycle"
    ctx.rule(R, "on every tick each order emitted at the last update (minus those executed since, over zero-volume ticks) is executed "
                "exactly once, in order, before the trader is updated; the trader starts from an empty order list")
    for w in views(ctx):
        if not usable(ctx, R, w, need_x=True):
            continue
        I, L, X, k = w.I, w.L, w.X, w.L.kappa
        O, idx = order_container(w)
        if O is None:
            ctx.undec(R, w.name, w.exe[0][0].where, "the executed order is not an element of a container")
            continue
        no = O + ("$n",)
        # one execution site, in the inner loop
        ctx.check(R, w.name + "/site", w.exe[-1][0].where, all(s[-1] is X and len(s) == 2 for e, s, p in w.exe),
                  "orders are executed outside of the loop over the pending orders")
        un = FALSE
        for e, s, p in w.exe:
            ctx.check(R, w.name + "/once", e.where, dd_and(un, e.pc) is FALSE, "an order can be executed twice within one tick")
            un = dd_or(un, e.pc)
        ok, d = same(un, body_pc(X), dd_and(body_pc(X), dom(w)))
        ctx.check(R, w.name + "/every", X.where, ok, "an emitted order is not executed on the tick when " + short(witness(d)))
        ok, d = same(X.pc, TRUE, dd_and(body_pc(L), dom(w)))
        ctx.check(R, w.name + "/every-tick", X.where, ok, "orders are not executed on the tick when " + short(witness(d)))
        cnt = I.load(X.entry, no, "u")
        if no in X.mods:
            # executed orders are taken out of the list while it is walked
            if not erased_in_place(ctx, R, w, I, X, no, idx):
                continue
        ok, d = same(X.cond, dd_apply(lambda c: t_lt(X.kappa, c), cnt), X.pc)
        if no in X.mods:
            ok = True
        brk = [b for b in X.breaks if b.pc is not FALSE]
        ctx.check(R, w.name + "/all", X.where, ok and not brk, "the loop does not visit all emitted orders: it %s" % (
            "is left early" if brk else "runs while " + short(showdd(X.cond, 3))))
        ctx.check(R, w.name + "/in-order", w.exe[0][0].where, idx is X.kappa or no in X.mods, "orders are executed in a different order than emitted: index %s" % show(idx) if isinstance(idx, T) else "")
        # before the update
        pu, px = min(p for e, s, p in w.upd), max(p for e, s, p in w.exe)
        ctx.check(R, w.name + "/before-update", w.upd[0][0].where, px < pu, "orders emitted on a tick are executed on the same tick")
        # the trader gets an empty list, and that very list is executed next
        for e, s, p in w.upd:
            a = e.args[4]
            if not (isinstance(a, T) and a.op == "ptr"):
                ctx.undec(R, w.name + "/list", e.where, "order list argument %s" % short(showdd(a, 2)))
                continue
            n0 = I.load(e.st, interp.loc_of(a) + ("$n",), "u")
            ok, d = same(n0, ZERO, e.pc)
            ctx.check(R, w.name + "/cleared", e.where, ok, "the trader receives a list that still holds orders when " + short(witness(d)))
        # what the next tick executes
        if L.back.pc is FALSE:
            ctx.bad(R, w.name + "/next", L.where, "the loop over the ticks never iterates")
            continue
        nb = under(I.load(L.back, no, "u"), dd_and(L.back.pc, dom(w)))
        zero = dd_not(nz_volume(w))
        upd = w.upd[0][0]
        for lits, t in cubes_of(nb):
            c = dd_and(cube(lits), dd_and(L.back.pc, dom(w)))
            if c is FALSE:
                continue
            nz, z = dd_and(c, dd_not(zero)), dd_and(c, zero)
            if nz is not FALSE:
                ok = t.op == "ld" and t.args[0].op == "objafter" or is_after(t, upd)
                if ok:
                    ctx.ok(R, w.name + "/emitted", upd.where)
                else:
                    ctx.bad(R, w.name + "/emitted", upd.where, "the orders executed on the next tick are not those the trader has just emitted: %s of them" % show(t))
            if z is not FALSE:
                zero_tick(ctx, R, w, t, O, X, L)


def executed(w):
    """Condition under which the order is executed in an iteration, or None."""
    return union_pc([(dd_and(e.pc, dd_apply(atom_nz, e.res)) if isinstance(e.res, (T, N)) else None) for e, s, p in w.exe])


def erased_in_place(ctx, R, w, I, X, no, idx):
    """The list is walked by idx; an executed order is erased, which brings its successor to idx, any other is passed.  False if that cannot be decided."""
    inst, n = w.name + "/all", I.load(X.head, no, "u")
    succ = executed(w)
    def gone(t):
        """The position of, or the count after, one removed element."""
        if t.op == "erasedi" and t.args[0].op == "at":
            return t.args[0].args[1]
        if t.op == "erasedn" and t.args[0].op == "at":
            return t_sub(t.args[0].args[2], ONE)
        return t

    def pos(st, l):
        """Index held in l, be it a number or an iterator."""
        def one(t):
            if t.op in ("it", "ptr"):
                q = interp.loc_of(t)
                t = q[q.index("[]") + 1] if "[]" in q else t
            return gone(t)
        return dd_apply(one, I.load(st, l, I.kinds.get(l, "?")))
    loc = next((l for l in X.mods if single(pos(X.head, l)) is idx), None)
    if succ is None or loc is None or not isinstance(n, T) or [b for b in X.breaks if b.pc is not FALSE]:
        ctx.undec(R, inst, X.where, "orders are removed from the list while it is walked")
        return False
    n1, i1 = V(dd_apply(gone, I.load(X.back, no, "u"))), V(pos(X.back, loc))
    i0 = V(pos(X.entry, loc))
    b = body_pc(X)
    one = ite(succ, V(1), V(0))
    if differ(n1.d, (V(n) - one).d, b) is not FALSE:
        ctx.undec(R, inst, X.where, "which orders are removed from the list while it is walked")
        return False
    d = differ(i1.d, (V(idx) + 1 - one).d, b)
    ctx.check(R, inst, X.where, d is FALSE, "the order after a removed one is passed over when " + short(witness(d)))
    d = differ(i0.d, ZERO, X.pc)
    ctx.check(R, inst, X.where, d is FALSE, "the walk over the orders starts with order " + short(showdd(i0.d, 2)))
    d = differ(X.cond, (V(idx) < V(n)).d, dd_and(X.pc, dd_and((V(idx) >= 0).d, (V(idx) <= V(n)).d)))
    ctx.check(R, inst, X.where, d is FALSE, "the loop does not visit all emitted orders when " + short(witness(d)))
    return True


def is_after(t, upd):
    """t is memory written by the call upd."""
    return any(x.op == "ev" and x.args and x.args[0] == UPD for x in term_subterms(t))


def zero_tick(ctx, R, w, t, O, X, L):
    I = w.I
    inst = w.name + "/zero-volume"
    head = I.load(L.head, O + ("$n",), "u")
    if t is head:
        ctx.bad(R, inst, X.where, "after a tick without volume all orders are executed again, including those already executed")
        return
    if t is ZERO:
        ctx.bad(R, inst, X.where, "a tick without volume drops the orders that were not executed")
        return
    if is_after(t, w.upd[0][0]):
        ctx.bad(R, inst, X.where, "the trader is updated on a tick without volume")
        return
    if O + ("$n",) in X.mods and X.exits and single(I.load(X.exits[0], O + ("$n",), "u")) is t:
        # exactly the executed orders were taken out
        ctx.ok(R, inst, X.where)
        return
    # the count of a list filled by the inner loop
    for loc, kk in X.mods.items():
        if loc[-1] != "$n":
            continue
        v = single(I.load(X.exits[0], loc, "u")) if X.exits else None
        if v is not t:
            continue
        succ = union_pc([(dd_and(e.pc, dd_apply(atom_nz, e.res)) if isinstance(e.res, (T, N)) else None) for e, s, p in w.exe])
        if succ is None:
            ctx.undec(R, inst, X.where, "execution result not available")
            return
        ent = I.load(X.entry, loc, "u")
        ok0, d0 = same(ent, ZERO, X.pc)
        hd = I.load(X.head, loc, "u")
        bk = I.load(X.back, loc, "u")
        want = dd_ite(succ, hd, dd_apply(t_add, hd, ONE))
        ok1, d1 = same(bk, want, dd_and(X.back.pc, dom(w)))
        ctx.check(R, inst, X.where, ok0, "the list of unexecuted orders is not empty at the start of a tick")
        ctx.check(R, inst + "/kept", X.where, ok1, "after a tick without volume the kept orders are not exactly the unexecuted ones: " + short(witness(d1)))
        if isinstance(hd, T):
            src = O + ("[]", X.kappa)
            for f in ("base_amount", "price", "type", "side"):
                got = I.load(X.back, loc[:-1] + ("[]", hd, f), "f")
                ref = I.load(X.head, src + (f,), "f")
                got = under(got, dd_and(X.back.pc, dd_not(succ)))
                ctx.check(R, inst + "/copy", X.where, got is ref or not isinstance(got, T), "the kept order is not the unexecuted one")
        return
    ctx.undec(R, inst, X.where, "orders kept over a tick without volume: %s" % show(t))


def union_pc(ds):
    r = FALSE
    for d in ds:
        if d is None:
            return None
        r = dd_or(r, d)
    return r


def e03(ctx):
    R = "update-ticks"
    ctx.rule(R, "the trader is updated exactly once on every tick with volume and never on a tick without")
    for w in views(ctx):
        if not usable(ctx, R, w):
            continue
        L = w.L
        un = FALSE
        for e, s, p in w.upd:
            ctx.check(R, w.name + "/once", e.where, len(s) == 1 and dd_and(un, e.pc) is FALSE, "the trader can be updated more than once per tick")
            un = dd_or(un, e.pc)
            ctx.check(R, w.name + "/trader", e.where, e.obj is interp.ptr((w.tr,)), "another trader is updated")
        ok, d = same(un, nz_volume(w), dd_and(body_pc(L), dom(w)))
        ctx.check(R, w.name + "/iff-volume", w.upd[0][0].where, ok, "update and volume disagree when " + short(witness(d)))


def acct_loc(w):
    a = w.exe[0][0].obj
    return interp.loc_of(a) if isinstance(a, T) and a.op == "ptr" else None


def e04(ctx):
    R = "observed"
    ctx.rule(R, "the trader is shown the account balances after this tick's executions, and one account, set up from the "
                "configuration, is used throughout")
    for w in views(ctx):
        if not usable(ctx, R, w):
            continue
        A = acct_loc(w)
        if A is None:
            ctx.undec(R, w.name, w.exe[0][0].where, "orders are executed on several accounts")
            continue
        for e, s, p in w.exe:
            ctx.check(R, w.name + "/account", e.where, isinstance(e.obj, T) and e.obj is interp.ptr(A), "orders are executed on different accounts")
            ctx.check(R, w.name + "/config", e.where, e.args[0] is interp.ptr((w.cfg,)) or e.args[0].op == "ptr" and e.args[0].args[0][0][0] in "vh",
                      "orders are executed under another configuration")
        for e, s, p in w.upd:
            after = all(px < p for _, _, px in w.exe)
            for i, fld in ((2, "base_balance"), (3, "quote_balance")):
                cur = I_load(w, e, A + (fld,))
                ok, d = same(e.args[i], cur, dd_and(e.pc, dom(w)))
                ctx.check(R, "%s/%s" % (w.name, fld), e.where, ok and after, "the trader is shown %s instead of the %s after this tick's executions" % (
                    short(showdd(e.args[i], 2)), fld))
        for fld, src in (("base_balance", leaf(w.cfg, "start_base_balance")), ("quote_balance", leaf(w.cfg, "start_quote_balance")), ("total_fee", ZERO)):
            v = w.I.load(w.L.entry, A + (fld,), "f")
            ok, d = same(v, src, w.L.pc)
            ctx.check(R, "%s/start/%s" % (w.name, fld), w.L.where, ok, "the evaluation starts with %s = %s" % (fld, short(showdd(v, 2))))


def I_load(w, e, loc):
    return w.I.load(e.st, loc, "f")


FAST = mkT("arg", 4)


def from_logger(t):
    return t.op == "ev" and t.args and isinstance(t.args[0], str) and t.args[0].split("::")[-2:-1] == ["Logger"]


def e05(ctx):
    R = "independent"
    ctx.rule(R, "no value or guard of an order execution, a trader update, a side input query or a result field other than the volatilities "
                "depends on the fast mode flag or on the logger")
    for w in views(ctx):
        if not usable(ctx, R, w):
            continue
        for e, s, p in walk(w.I.ev):
            if e.name not in (EXEC, UPD, SIDX, SSIG, STS):
                continue
            for a in list(e.args) + [e.pc]:
                if isinstance(a, (T, N)):
                    bad = [t for t in term_subterms(a) if t is FAST or from_logger(t)]
                    ctx.check(R, "%s/%s" % (w.name, e.name.split("::")[-1]), e.where, not bad, "%s depends on %s" % (
                        e.name, "the fast mode flag" if bad and bad[0] is FAST else "the logger"))
        for k, v in ret_fields(w):
            if k[-1].replace("has:", "") in ("base_volatility", "trader_volatility"):
                continue
            bad = [t for t in term_subterms(v) if t is FAST or from_logger(t)] if isinstance(v, (T, N)) else []
            ctx.check(R, "%s/result.%s" % (w.name, k[-1]), w.f.where, not bad, "the result field depends on the fast mode flag or the logger")
        # loop-carried state and the loop itself
        for L in loops_of(w.I.ev):
            bad = [t for t in term_subterms(under(L.cond, L.pc)) if t is FAST] if L.cond is not None else []
            bad += [t for b in L.breaks for t in term_subterms(b.pc) if t is FAST]
            ctx.check(R, "%s/loop" % w.name, L.where, not bad, "the loop depends on the fast mode flag")
    # with and without a logger the same calls happen
    for side in (True, False):
        a, b = exec_view(ctx, side, True), exec_view(ctx, side, False)
        if a.gaps or b.gaps:
            continue
        sa = [(e.name, len(s)) for e, s, p in walk(a.I.ev) if e.name in OPQ + (UPD,)]
        sb = [(e.name, len(s)) for e, s, p in walk(b.I.ev) if e.name in OPQ + (UPD,)]
        ctx.check(R, "%s/logger" % side, a.f.where, sa == sb, "attaching a logger changes the sequence of calls")
    # volatility in full mode only, never fed when fast
    w = exec_view(ctx)
    if usable(ctx, R, w):
        vf = [x for x in ret_fields(w) if x[0][-1] in ("has:base_volatility", "has:trader_volatility")]
        for k, v in vf:
            ok, d = same(dd_apply(atom_nz, v) if not isinstance(v, bool) else v, dd_and(dd_not(atom_nz(FAST)), w.L.pc))
            ctx.check(R, "result." + k[-1], w.f.where, ok, "volatilities are not reported exactly in full mode: " + short(witness(d)))


def ret_fields(w):
    return [(k[1:], v) for k, v in w.st.mem.items() if k[0] == ("ret", 0)]


def e06(ctx):
    R = "bookkeeping"
    ctx.rule(R, "the count of executed orders grows by one exactly on success; an order is logged exactly on success, the exchange state once per "
                "tick before any execution, the trader state once after every update")
    for w in views(ctx):
        if not usable(ctx, R, w, need_x=True):
            continue
        I, L, X = w.I, w.L, w.X
        succ = union_pc([dd_and(e.pc, dd_apply(atom_nz, e.res)) for e, s, p in w.exe])
        out = dict(ret_fields(w)).get(("total_executed_orders",))
        if out is None:
            ctx.bad(R, w.name + "/count", w.f.where, "the number of executed orders is not reported")
        else:
            t = single(under(out, dd_and(L.pc, TRUE)))
            mb = mu_init_back(I, t) if t is not None else None
            if t is not None and is_num(t):
                ctx.bad(R, w.name + "/count", w.f.where, "the number of executed orders is always reported as %s" % show(t))
            elif mb is None or mb[0] is not L:
                ctx.undec(R, w.name + "/count", w.f.where, "count is %s" % short(showdd(out, 2)))
            else:
                loc = mb[1]
                okI, _ = same(mb[2], ZERO, L.pc)
                # the loop over the orders counts the executions, be it from zero or from the total, and the total grows by just that
                okS, okB, d, dS = False, False, FALSE, FALSE
                tot = (V(I.load(L.back, loc, "i")) - V(I.load(L.head, loc, "i")))
                for c in [loc] + [q for q, kd in sorted(X.mods.items(), key=str) if kd == "v" and q != loc and I.kinds.get(q) in ("i", "u")]:
                    hd, bk = I.load(X.head, c, "i"), I.load(X.back, c, "i")
                    ok, e = same(bk, dd_ite(succ, dd_apply(t_add, hd, ONE), hd), X.back.pc)
                    for x in X.exits:
                        ok = ok and differ(I.load(x, c, "i"), hd, x.pc) is FALSE
                    for x in X.breaks:
                        if x.pc is not FALSE:
                            ok = ok and differ(I.load(x, c, "i"), dd_ite(succ, dd_apply(t_add, hd, ONE), hd), x.pc) is FALSE
                    if c == loc:
                        d = e
                    if ok:
                        okS = True
                        e = differ(tot.d, (V(I.load(X.after, c, "i")) - V(I.load(X.entry, c, "i"))).d, dd_and(L.back.pc, dom(w)))
                        okB = okB or e is FALSE
                        dS = e
                d = dS if okS else d
                ctx.check(R, w.name + "/count", X.where, okI and okS and okB, "the count does not grow by exactly one per executed order (%s)" % short(witness(d)))
        if not w.log:
            continue
        lx = [(e, s, p) for e, s, p in named(L.ev, LOGX)]
        A = acct_loc(w)
        state = [x for x in lx if len(x[0].args) == 2]
        order = [x for x in lx if len(x[0].args) == 3]
        un = union_pc([e.pc for e, s, p in state])
        ok, d = same(un, TRUE, dd_and(body_pc(L), dom(w)))
        ctx.check(R, w.name + "/state-log", state[0][0].where if state else L.where, bool(state) and ok and all(not s for e, s, p in state),
                  "the exchange state is not logged exactly once per tick: " + short(witness(d)))
        firstx = min(p for e, s, p in named(L.ev, EXEC))
        ctx.check(R, w.name + "/state-log-first", state[0][0].where if state else L.where, all(p < firstx for e, s, p in state),
                  "the exchange state is logged after orders have been executed")
        un = union_pc([e.pc for e, s, p in order])
        want = union_pc([dd_and(e.pc, dd_apply(atom_nz, e.res)) for e, s, p in w.exe])
        ok, d = same(un, want, dd_and(body_pc(X), dom(w)))
        ctx.check(R, w.name + "/order-log", order[0][0].where if order else X.where, bool(order) and ok and all(s and s[-1] is X for e, s, p in order),
                  "an order is not logged exactly when it was executed: " + short(witness(d)))
        for e, s, p in lx:
            tk = e.args[0] is interp.ptr((H, "[]", L.kappa)) or copy_of_tick(w, e, e.args[0], L.kappa)
            ctx.check(R, w.name + "/log-tick", e.where, tk, "another tick is logged")
            ctx.check(R, w.name + "/log-account", e.where, A is None or e.args[1] is interp.ptr(A), "another account is logged")
            if len(e.args) == 3:
                ctx.check(R, w.name + "/log-order", e.where, e.args[2] is w.exe[0][0].args[1], "another order is logged")
        lt = named(L.ev, LOGT)
        un = union_pc([e.pc for e, s, p in lt])
        ok, d = same(un, union_pc([e.pc for e, s, p in w.upd]), dd_and(body_pc(L), dom(w)))
        lastu = max(p for e, s, p in named(L.ev, UPD))
        ctx.check(R, w.name + "/trader-log", lt[0][0].where if lt else L.where, bool(lt) and ok and all(p > lastu for e, s, p in lt),
                  "the trader state is not logged exactly once after every update: " + short(witness(d)))


def e07(ctx):
    R = "summary"
    ctx.rule(R, "start/end balances, prices and values, executed orders, fee and annualised volatilities of the result are the stated functions of "
                "the configuration, first and last tick and final account")
    for w in views(ctx):
        if not usable(ctx, R, w):
            continue
        I, L = w.I, w.L
        A = acct_loc(w)
        if A is None or not L.exits:
            ctx.undec(R, w.name, w.f.where, "no single account")
            continue
        got = dict(ret_fields(w))
        # after the loop
        end = {f: V(I.load(L.exits[0], A + (f,), "f")) for f in ACCT}
        sb, sq = (V(leaf(w.cfg, x)) for x in ("start_base_balance", "start_quote_balance"))
        p0, p1 = V(tick(ZERO, "close")), V(tick(t_sub(w.n, ONE), "close"))
        want = {"start_base_balance": sb, "start_quote_balance": sq, "end_base_balance": end["base_balance"], "end_quote_balance": end["quote_balance"],
                "start_price": p0, "end_price": p1, "start_value": sq + p0 * sb, "end_value": end["quote_balance"] + p1 * end["base_balance"],
                "total_fee": end["total_fee"]}
        some = t_lt(ZERO, w.n)
        for f, r in want.items():
            if (f,) not in got:
                ctx.bad(R, "%s/%s" % (w.name, f), w.f.where, "the field %s of the result is never set" % f)
                continue
            ok, d = same(got[(f,)], r.d, some)
            ctx.check(R, "%s/%s" % (w.name, f), w.f.where, ok, "%s is %s" % (f, short(showdd(got[(f,)], 3))))
            h = got.get(("has:" + f,), FALSE)
            ok, d = same(dd_apply(atom_nz, h), some)
            ctx.check(R, "%s/has:%s" % (w.name, f), w.f.where, ok, "%s is not set exactly for a non-empty history" % f)
        # volatilities
        gets = named(I.ev, VGET)
        ups = named(I.ev, VUPD)
        for f, bal in (("base_volatility", "base"), ("trader_volatility", "trader")):
            v = got.get((f,))
            if v is None:
                ctx.bad(R, "%s/%s" % (w.name, f), w.f.where, "never set")
                continue
            v = under(v, dd_and(some, dd_not(atom_nz(FAST))))
            src = [e for e, s, p in gets if isinstance(v, T) and any(t is e.res for t in term_subterms(v))]
            if len(src) != 1:
                ctx.undec(R, "%s/%s" % (w.name, f), w.f.where, short(showdd(v, 2)))
                continue
            ok = v is t_mul(src[0].res, t_fun("sqrt", num(365), nn=True)) or v is t_mul(src[0].res, t_fun("sqrt", num(365)))
            ctx.check(R, "%s/%s/annualised" % (w.name, f), src[0].where, ok, "%s is %s" % (f, show(v)))
            us = [(e, s, p) for e, s, p in ups if e.obj is src[0].obj]
            un = union_pc([e.pc for e, s, p in us]) or FALSE
            ok, d = same(un, dd_and(nz_volume(w), dd_not(atom_nz(FAST))), dd_and(body_pc(L), dom(w)))
            ctx.check(R, "%s/%s/fed" % (w.name, f), us[0][0].where if us else w.f.where, ok and all(s and s[0] is L for e, s, p in us),
                      "%s does not cover exactly the ticks with volume: %s" % (f, short(witness(d))))
            lastx = max(p for e, s, p in w.exe)
            for e, s, p in us:
                if bal == "base":
                    ok = e.args[1] is ONE and e.args[2] is ZERO
                else:
                    ok = same(e.args[1], I_load(w, e, A + ("base_balance",)), e.pc)[0] and same(e.args[2], I_load(w, e, A + ("quote_balance",)), e.pc)[0] and p > lastx
                ctx.check(R, "%s/%s/portfolio" % (w.name, f), e.where, ok, "%s measures the portfolio (%s, %s)" % (f, short(showdd(e.args[1], 1)), short(showdd(e.args[2], 1))))
                tk = e.args[0] is interp.ptr((H, "[]", L.kappa)) or copy_of_tick(w, e, e.args[0], L.kappa)
                ctx.check(R, "%s/%s/tick" % (w.name, f), e.where, tk, "%s is fed another tick" % f)


def e14(ctx):
    R = "side-signals"
    ctx.rule(R, "whenever the side input has a record at or before the tick, the trader sees that record's signals followed by its age; with none, or "
                "without side input, it sees no signals")
    for w in views(ctx):
        if not usable(ctx, R, w):
            continue
        I, L, k = w.I, w.L, w.L.kappa
        e = w.upd[0][0]
        a = e.args[1]
        if not (isinstance(a, T) and a.op == "ptr"):
            ctx.undec(R, w.name, e.where, "signals argument")
            continue
        S = interp.loc_of(a)
        n = I.load(e.st, S + ("$n",), "u")
        if not w.side:
            ok, d = same(n, ZERO, dd_and(e.pc, dom(w)))
            n0 = single(n)
            mb = mu_init_back(I, n0) if n0 is not None else None
            ctx.check(R, w.name + "/none", e.where, ok, "without side input the trader is given signals")
            continue
        q = named(L.ev, SIDX)
        un = union_pc([x.pc for x, s, p in q]) or FALSE
        ok, d = same(un, TRUE, dd_and(body_pc(L), dom(w)))
        # the query may be skipped on ticks on which the trader is not updated
        ok2, d2 = same(un, TRUE, dd_and(dd_and(body_pc(L), dom(w)), nz_volume(w)))
        if not q:
            ctx.bad(R, w.name + "/query", e.where, "the side input is never queried")
            continue
        ctx.check(R, w.name + "/query", q[0][0].where, ok2 and len(q) >= 1, "the side input is not queried on every tick: " + short(witness(d2)))
        if len(q) != 1:
            ctx.undec(R, w.name, q[0][0].where, "several queries")
            continue
        x = q[0][0]
        have = dd_not(dd_apply(lambda r: t_lt(r, ZERO), x.res))
        # hint: -1 or an index returned before
        hint = x.args[1]
        okh = False
        h = single(hint)
        if h is not None and h.op == "num":
            okh = h.args[0] == -1
        elif h is not None and h.op == "mu":
            L2, loc, ini, bk = mu_init_back(I, h)
            okh = same(ini, num(-1), L2.pc)[0] and all(y is h or y is x.res or y is num(-1) for y in leaves(under(bk, L.back.pc)))
        if okh:
            ctx.ok(R, w.name + "/hint", x.where)
        elif h is not None and h.op in ("num", "mu", "poly"):
            ctx.bad(R, w.name + "/hint", x.where, "the search hint is not -1 or an index found before: %s" % show(h))
        else:
            ctx.undec(R, w.name + "/hint", x.where, short(showdd(hint, 2)))
        g = named(L.ev, SSIG)
        for y, s, p in g:
            ok = dd_implies(dd_and(y.pc, dom(w)), have)
            ctx.check(R, w.name + "/valid-index", y.where, ok and y.args[0] is x.res, "signals are read although there is no record, or of another record")
            into = y.args[1]
            if isinstance(into, T) and into.op == "ptr":
                n1 = I.load(y.st, interp.loc_of(into) + ("$n",), "u")
                ctx.check(R, w.name + "/fresh", y.where, same(n1, ZERO, y.pc)[0], "signals of the previous record are still in the list when the new ones are read")
        for y, s, p in named(L.ev, STS):
            ctx.check(R, w.name + "/valid-age", y.where, dd_implies(dd_and(y.pc, dom(w)), have) and y.args[0] is x.res, "the age is computed from another record")
        # last signal = age
        ts = [y for y, s, p in named(L.ev, STS)]
        und = dd_and(dd_and(e.pc, dom(w)), have)
        last = dd_apply(t_sub, under(n, und), ONE)
        lt = single(last)
        if ts and g and S + ("$n",) in L.mods:
            hn = I.load(L.head, S + ("$n",), "u")
            keep = dd_and(und, dd_apply(lambda q_: TRUE if q_ is hn else FALSE, n)) if isinstance(hn, T) and hn.op == "mu" else FALSE
            if keep is not FALSE:
                li = t_sub(hn, ONE)
                va, vb = (I.load(s_, S + ("[]", li), "f") for s_ in (e.st, L.head))
                if same(va, vb, keep)[0]:
                    ctx.bad(R, w.name + "/age", e.where, "the trader is given the signals and the age of an earlier tick when " + short(witness(keep)))
                    continue
        if lt is None or not ts or not g:
            ctx.undec(R, w.name + "/age", e.where, "number of signals %s" % short(showdd(n, 2))) if g and ts else \
                ctx.bad(R, w.name + "/age", e.where, "the %s of the side input record is never read" % ("signals" if not g else "age"))
            continue
        v = I.load(e.st, S + ("[]", lt), "f")
        ok, d = same(v, dd_apply(t_sub, tick(k, "timestamp_sec"), ts[0].res), und)
        ctx.check(R, w.name + "/age", e.where, ok, "the last signal is %s instead of the age of the record" % short(showdd(under(v, und), 2)))
        # exactly one appended value after the record's signals
        base = single(dd_apply(t_sub, under(n, und), ONE))
        ok = base is not None and any(t.op == "ev" and t.args and t.args[0] == SSIG for t in term_subterms(base)) and base.op != "poly"
        ctx.check(R, w.name + "/count", e.where, ok, "the signals are not the record's signals plus its age: their number is %s" % short(showdd(under(n, und), 2)))
        # no record: list unchanged (it is empty until the first record)
        und0 = dd_and(dd_and(body_pc(L), dom(w)), dd_not(have))
        n0 = single(under(n, dd_and(und0, e.pc)))
        hd = I.load(L.head, S + ("$n",), "u")
        ini = I.load(L.entry, S + ("$n",), "u")
        ctx.check(R, w.name + "/before-first", e.where, (n0 is hd or n0 is ZERO) and same(ini, ZERO, L.pc)[0],
                  "the trader is given signals before the first record")


# ------------------------------------------------------------ EvaluateTrader
XT, AM, HS, NEW = NS + "ExecuteTrader", NS + "AddMonthsToTimestampSec", NS + "HistorySubset", NS + "TraderEmitter::NewTrader"
ET = NS + "EvaluateTrader"


def period_views(ctx):
    return [period_view(ctx, a, b) for a in (True, False) for b in (True, False)]


def period_view(ctx, side=True, log=True):
    """The value-flow view of EvaluateTrader; side input and logger given or null."""
    c = ctx.__dict__.setdefault("_pv", {})
    if (side, log) in c:
        return c[side, log]
    f = ctx.fn(ET, 0)
    if len(f.d["params"]) != 6:
        raise Anchor("EvaluateTrader does not take its six documented parameters")
    I, st, v, rl = run(ctx, f, opaque=(XT, AM, HS), args=[None] * 3 + [None if side else mkT("null"), None, None if log else mkT("null")])
    w = View()
    w.I, w.st, w.f, w.name = I, st, f, "EvaluateTrader"
    w.nside, w.nlog = not side, not log
    w.gaps = gaps(I)
    w.cfg, w.ecfg, w.hist, w.si, w.em, w.lg = (proot(f, i) for i in range(6))
    w.x, w.hs, w.new = named(I.ev, XT), named(I.ev, HS), named(I.ev, NEW)
    w.L = w.x[0][1][0] if w.x and w.x[0][1] else None
    c[side, log] = w
    return w


def pv_ok(ctx, R, w):
    if w.gaps:
        ctx.undec(R, w.name, w.f.where, "; ".join(w.gaps[:3]))
        return False
    if not w.x:
        ctx.bad(R, w.name, w.f.where, "no period is ever evaluated")
        return False
    if w.L is None or any(s[0] is not w.L or len(s) != 1 for e, s, p in w.x):
        ctx.undec(R, w.name, w.x[0][0].where, "periods are not evaluated by one loop")
        return False
    if len(w.x) != 1 or len(w.hs) != 1 or w.hs[0][1] != (w.L,):
        ctx.undec(R, w.name, w.f.where, "%d evaluations and %d history selections in the loop" % (len(w.x), len(w.hs)))
        return False
    return True


def am(a, b):
    return V(dd_apply(lambda x, y: mkT("fn:" + AM, x, y), V(a).d, V(b).d))


class Per:
    pass


def period_spec(w):
    """Reference values of one iteration."""
    r = Per()
    e = w.ecfg
    k = V(w.L.kappa)
    r.months = V(leaf(e, "evaluation_period_months"))
    r.cend = V(leaf(e, "end_timestamp_sec"))
    r.split = r.months > 0
    r.start = w.hs[0][0].args[1]
    r.end = w.hs[0][0].args[2]
    r.beyond = None
    return r


def am_events(w):
    return named(w.I.ev, AM)


def e08(ctx):
    R = "periods"
    ctx.rule(R, "the k-th period starts k months after the evaluation start and lasts the configured number of months (or to the evaluation end), is "
                "evaluated iff it does not end after the evaluation end and contains ticks, and enumeration stops exactly when a period would")
    for w in period_views(ctx):
        e08_view(ctx, R, w)


def e08_view(ctx, R, w):
    if not pv_ok(ctx, R, w):
        return
    I, L = w.I, w.L
    h, x = w.hs[0][0], w.x[0][0]
    ms, ce = V(leaf(w.ecfg, "evaluation_period_months")), V(leaf(w.ecfg, "end_timestamp_sec"))
    # the same calls as the reference makes, as terms
    cand = {e.res for e, s, p in am_events(w)}
    start = V(mk_am(w, leaf(w.ecfg, "start_timestamp_sec"), L.kappa))
    stop = ite(ms > 0, V(mk_am(w, start.d, ms.d)), ce)
    bp = body_pc(L)
    ctx.check(R, "history", h.where, h.args[0] is interp.ptr((w.hist,)), "another history is selected from")
    ok, d = same(h.args[1], start.d, h.pc)
    ctx.check(R, "start", h.where, ok, "the period starts at %s" % short(showdd(h.args[1], 3)))
    ok, d = same(h.args[2], stop.d, h.pc)
    ctx.check(R, "end", h.where, ok, "the period ends at %s" % short(showdd(h.args[2], 3)))
    beyond = (stop > ce).d
    ok, d = same(under(h.pc, bp), dd_not(beyond), bp)
    ctx.check(R, "bounded", h.where, ok, "a period is considered although it ends after the evaluation, or not although it does not: " + short(witness(d)))
    empty = V(mkT_field(w, h, "first")).eq(V(mkT_field(w, h, "second"))).d
    ok, d = same(x.pc, dd_not(empty), h.pc)
    ctx.check(R, "evaluated", x.where, ok, "a period is not evaluated exactly when it contains ticks: " + short(witness(d)))
    ctx.check(R, "evaluated-after", x.where, dd_implies(x.pc, h.pc), "a period is evaluated without selecting its ticks")
    for i, fld in ((1, "first"), (2, "second")):
        ok, d = same(x.args[i], mkT_field(w, h, fld), x.pc)
        ctx.check(R, "ticks/" + fld, x.where, ok, "the evaluated range is %s" % short(showdd(x.args[i], 2)))
    # continues exactly while split into periods and not beyond the end
    cont = L.back.pc
    ok, d = same(cont, dd_and(dd_not(beyond), (ms > 0).d), bp)
    ctx.check(R, "stop", L.where, ok, "the enumeration of periods stops or continues wrongly when " + short(witness(d)))
    ctx.check(R, "loop", L.where, same(L.cond, TRUE, L.pc)[0] or not isinstance(differ(dd_and(L.cond, TRUE), TRUE, dd_not(beyond)), N),
              "the loop stops by another condition: " + short(showdd(L.cond, 3)))
    record(ctx, R, w, start, stop)


def mk_am(w, a, b):
    return dd_apply(lambda x, y: fn_term(AM, x, y), V(a).d, V(b).d)


def fn_term(q, *a):
    return mkT("fn:" + q, *a)


def mkT_field(w, e, fld):
    """Field of the object returned by an opaque call."""
    for x in (w.x[0][0].args[1], w.x[0][0].args[2]):
        for t in leaves(x):
            for y in term_subterms(t):
                if y.op == "ld" and y.args[1] == (fld,) and any(z.op == "ev" and z.args and z.args[0] == HS for z in term_subterms(y)):
                    return y
    return w.x[0][0].args[1 if fld == "first" else 2]


def period_loc(w):
    for loc in w.L.mods:
        if loc[-2:] == ("period", "$n"):
            return loc[:-1]
    return None


def record(ctx, R, w, start, stop):
    """Period records of the result."""
    I, L, x = w.I, w.L, w.x[0][0]
    P = period_loc(w)
    if P is None:
        ctx.undec(R, "record", L.where, "no period record is appended in the loop")
        return
    hd = I.load(L.head, P + ("$n",), "u")
    res = x.res
    for s in [L.back] + list(L.breaks):
        if s.pc is FALSE:
            continue
        n1 = I.load(s, P + ("$n",), "u")
        ok, d = same(n1, dd_ite(x.pc, dd_apply(t_add, hd, ONE), hd), s.pc)
        ctx.check(R, "record/count", L.where, ok, "not exactly one record per evaluated period: " + short(witness(d)))
        und = dd_and(s.pc, x.pc)
        if und is FALSE or not isinstance(hd, T):
            continue
        for f, ref in (("start_timestamp_sec", start), ("end_timestamp_sec", stop)):
            v = I.load(s, P + ("[]", hd, f), "i")
            ok, d = same(v, ref.d, und)
            ctx.check(R, "record/" + f, L.where, ok, "the record's %s is %s" % (f, short(showdd(under(v, und), 3))))
    t = I.load(w.st, (("ret", 0), "period", "$n"), "u")
    ctx.check(R, "record/start-empty", L.where, same(I.load(L.entry, P + ("$n",), "u"), ZERO)[0], "the result starts with records")


def result_field(w, f):
    """Field f of the evaluated period's result, as a term."""
    x = w.x[0][0]
    return V(mkT("ld", mkT("ret", XT, ev_of(x)), (f,)))


def ev_of(x):
    for t in term_subterms(x.res) if isinstance(x.res, (T, N)) else ():
        if t.op == "ev":
            return t
    return None


def is_null(t):
    return isinstance(t, T) and t.op == "null"


def e09(ctx):
    R = "fresh-trader"
    ctx.rule(R, "every period is evaluated with a trader newly made by the emitter in the same iteration and with the caller's configuration, side "
                "input and logger")
    for w in period_views(ctx):
        e09_view(ctx, R, w)


def e09_view(ctx, R, w):
    if not pv_ok(ctx, R, w):
        return
    I, L, x = w.I, w.L, w.x[0][0]
    ctx.check(R, "config", x.where, x.args[0] is interp.ptr((w.cfg,)), "another account configuration is used")
    ctx.check(R, "side-input", x.where, (is_null(x.args[3]) if w.nside else x.args[3] is interp.ptr((w.si,))), "another side input is used")
    ctx.check(R, "logger", x.where, (is_null(x.args[6]) if w.nlog else x.args[6] is interp.ptr((w.lg,))), "another logger is used")
    ok, d = same(dd_apply(atom_nz, x.args[4]), atom_nz(leaf(w.ecfg, "fast_eval")), x.pc)
    ctx.check(R, "fast", x.where, ok, "the fast mode flag is %s" % short(showdd(x.args[4], 2)))
    tr = x.args[5]
    if not w.new:
        ctx.bad(R, "trader", x.where, "no trader is created by the emitter")
        return
    for e, s, p in w.new:
        ctx.check(R, "emitter", e.where, e.obj is interp.ptr((w.em,)), "another emitter is used")
    for lits, t in cubes_of(under(tr, x.pc)):
        c = dd_and(x.pc, cube(lits))
        if c is FALSE:
            continue
        subs = list(term_subterms(t))
        src = [(e, s, p) for e, s, p in w.new if any(y is e.res for y in subs)]
        if any(y.op == "mu" and I.loops.get(y.args[0]) is L for y in subs):
            ctx.bad(R, "trader", x.where, "a period is evaluated with the trader of an earlier period when " + short(witness(c)))
        elif not src:
            ctx.undec(R, "trader", x.where, "the evaluated trader is %s" % short(show(t)))
        else:
            e, s, p = src[0]
            ctx.check(R, "trader", e.where, len(s) == 1 and s[0] is L, "one trader is reused for several periods")
            ctx.check(R, "trader-pc", e.where, dd_implies(c, e.pc), "a period can be evaluated without a new trader")
    got = I.load(w.st, (("ret", 0), "name"), "s")
    nm = named(I.ev, NS + "TraderEmitter::GetName")
    ctx.check(R, "name", w.f.where, bool(nm) and got is nm[0][0].res and nm[0][0].obj is interp.ptr((w.em,)), "the result is not named after the emitter")
    for fld, root in (("account_config", w.cfg), ("eval_config", w.ecfg)):
        m = message(ctx, "AccountConfig" if fld[0] == "a" else "EvaluationConfig")
        for f2, fd in sorted(m["fields"].items()):
            if fd["label"] == "repeated" or fd["type"] in ("FeeConfig",):
                continue
            v = I.load(w.st, (("ret", 0), fld, f2), "f")
            ctx.check(R, "%s.%s" % (fld, f2), w.f.where, v is leaf(root, f2), "the result reports %s = %s" % (f2, short(showdd(v, 2))))


def e10(ctx):
    R = "gains"
    ctx.rule(R, "a period's gains are end value / start value and end price / start price; the score is the geometric mean of their ratio and the averages "
                "are arithmetic means over the periods (0 without periods)")
    for w in period_views(ctx):
        e10_view(ctx, R, w)


def e10_view(ctx, R, w):
    if not pv_ok(ctx, R, w):
        return
    I, L, x = w.I, w.L, w.x[0][0]
    P = period_loc(w)
    if P is None:
        ctx.undec(R, "record", L.where, "no period record is appended in the loop")
        return
    hd = single(I.load(L.head, P + ("$n",), "u"))

    def res(s, f):
        return V(I.load(s, P + ("[]", hd, "result", f), "f"))
    for s in [L.back] + list(L.breaks):
        und = dd_and(s.pc, x.pc)
        if und is FALSE or hd is None:
            continue
        for f, a, b in (("final_gain", "end_value", "start_value"), ("base_final_gain", "end_price", "start_price")):
            v = under(I.load(s, P + ("[]", hd, f), "f"), und)
            ra, rb = under(res(s, a).d, und), under(res(s, b).d, und)
            ref = dd_apply(t_fdiv, ra, rb)
            ok, d = same(v, ref, und)
            ctx.check(R, f, L.where, ok, "%s is %s" % (f, short(showdd(v, 2))))
            for y, nm in ((ra, a), (rb, b)):
                good = isinstance(y, T) and y.op == "ld" and y.args[1][-1] == nm and any(z.op == "ev" and z.args and z.args[0] == XT for z in term_subterms(y))
                ctx.check(R, "result.%s" % nm, L.where, good, "the period's result is not the result of its evaluation: %s" % short(showdd(y, 1)))
    cnt = I.load(w.st, (("ret", 0), "period", "$n"), "u")
    specs = {"avg_gain": lambda s, k, c: V(I.load(s, c + ("[]", k, "final_gain"), "f")),
             "avg_base_gain": lambda s, k, c: V(I.load(s, c + ("[]", k, "base_final_gain"), "f")),
             "avg_total_executed_orders": lambda s, k, c: V(I.load(s, c + ("[]", k, "result", "total_executed_orders"), "f")),
             "avg_total_fee": lambda s, k, c: V(I.load(s, c + ("[]", k, "result", "total_fee"), "f")),
             "score": lambda s, k, c: V(I.load(s, c + ("[]", k, "final_gain"), "f")) / V(I.load(s, c + ("[]", k, "base_final_gain"), "f"))}
    some = dd_apply(lambda c: t_lt(ZERO, c), cnt)
    for f, el in specs.items():
        v = I.load(w.st, (("ret", 0), f), "f")
        ok, d = same(v, ZERO, dd_not(some))
        ctx.check(R, f + "/none", w.f.where, ok, "%s is not 0 without periods" % f)
        h = I.load(w.st, (("ret", 0), "has:" + f), "b")
        ctx.check(R, f + "/set", w.f.where, same(dd_apply(atom_nz, h) if not isinstance(h, bool) else h, TRUE)[0], "%s is not always set" % f)
        fold(ctx, R, f, w, v, cnt, some, el, P, f == "score")


def fold(ctx, R, f, w, v, cnt, some, el, P, geo):
    I = w.I
    vv = under(v, some)
    mus = {t for t in term_subterms(vv) if t.op == "mu" and t.args[0] in I.loops and I.loops[t.args[0]] is not w.L and
           isinstance(t.args[1], tuple) and t.args[1][-1] not in ("$n",) and len(t.args[1]) == 1}
    # a divisor that counts only some of the periods
    for t in sorted(mus, key=show):
        Lc, loc, ini, bk = mu_init_back(I, t)
        steps = {x for x in leaves(under(bk, Lc.back.pc))}
        if len(mus) > 1 and steps == {t, t_add(t, ONE)} and same(ini, ZERO, Lc.pc)[0]:
            ctx.bad(R, f + "/mean", Lc.where, "%s divides by a count that leaves out periods when %s" % (
                f, short(witness(dd_and(Lc.back.pc, dd_apply(lambda q: TRUE if q is t else FALSE, bk))))))
            return
    if len(mus) != 1:
        ctx.undec(R, f, w.f.where, "%d accumulators in %s" % (len(mus), short(showdd(vv, 2))))
        return
    m = mus.pop()
    Lf, loc, ini, bk = mu_init_back(I, m)
    c2 = I.load(Lf.entry, P + ("$n",), "u")
    ok, d = same(Lf.cond, dd_apply(lambda c: t_lt(Lf.kappa, c), c2), Lf.pc)
    ctx.check(R, f + "/all", Lf.where, ok and not [b for b in Lf.breaks if b.pc is not FALSE], "not all periods enter %s" % f)
    ctx.check(R, f + "/start", Lf.where, same(ini, ONE if geo else ZERO, Lf.pc)[0], "the accumulation of %s starts at %s" % (f, short(showdd(ini, 1))))
    e = el(Lf.head, Lf.kappa, P)
    ref = V(m) * e if geo else V(m) + e
    ok, d = same(bk, ref.d, Lf.back.pc)
    ctx.check(R, f + "/term", Lf.where, ok, "%s accumulates %s" % (f, short(showdd(under(bk, Lf.back.pc), 2))))
    if geo:
        want = dd_apply(lambda c: t_fun("pow", m, t_fdiv(ONE, c)), cnt)
    else:
        want = dd_apply(lambda c: t_fdiv(m, c), cnt)
    ok, d = same(v, want, some)
    ctx.check(R, f + "/mean", w.f.where, ok, "%s is %s" % (f, short(showdd(vv, 2))))


# --------------------------------------------------------------------- batch
def e11(ctx):
    R = "batch"
    ctx.rule(R, "a batch evaluates every emitter once with the caller's configurations, history and side input and without logger; the i-th "
                "result is that of the i-th emitter")
    f = ctx.fn(NS + "EvaluateBatchOfTraders", 0)
    I, st, v, rl = run(ctx, f, opaque=(ET,))
    if gaps(I):
        ctx.undec(R, "batch", f.where, gaps(I)[0])
        return
    roots = [proot(f, i) for i in range(5)]
    xs = named(I.ev, ET)
    if not xs and [1 for e, s_, p_ in walk(I.ev) if e.kind in ("async", "callback")]:
        ctx.undec(R, "batch", f.where, "tasks whose work is not followed")
        return
    if not xs:
        ctx.bad(R, "batch", f.where, "no emitter is evaluated")
        return
    if len(xs) != 1 or len(xs[0][1]) != 1:
        ctx.undec(R, "batch", xs[0][0].where, "evaluations outside of a single loop over the emitters")
        return
    x, (L,), p = xs[0]
    for i, nm in enumerate(("account configuration", "evaluation configuration", "history", "side input")):
        ctx.check(R, nm, x.where, x.args[i] is interp.ptr((roots[i],)), "another %s is used" % nm)
    em = x.args[4]
    n = leaf(roots[4], "$n")
    want = leaf(roots[4], "[]", L.kappa)
    ctx.check(R, "emitter", x.where, isinstance(em, T) and (em is want or em is interp.ptr((("D", want),))), "emitter %s is evaluated in iteration %s" % (short(showdd(em, 2)), show(L.kappa)))
    ctx.check(R, "logger", x.where, isinstance(x.args[5], T) and x.args[5].op == "null", "a shared logger is used by concurrent evaluations")
    ok, d = same(L.cond, t_lt(L.kappa, n), L.pc)
    ctx.check(R, "all", L.where, ok and not [b for b in L.breaks if b.pc is not FALSE], "not all emitters are evaluated")
    ok, d = same(x.pc, TRUE, body_pc(L))
    ctx.check(R, "each", x.where, ok, "an emitter is skipped when " + short(witness(d)))
    rn = I.load(st, (("ret", 0), "$n"), "u")
    ctx.check(R, "count", f.where, rn is n, "the batch returns %s results" % short(showdd(rn, 2)))
    # provenance of the i-th result
    chain(ctx, R, I, st, x, L, f)


def chain(ctx, R, I, st, x, L, f):
    def content(l, loc):
        """What iteration k of loop l puts at index k of the container."""
        t = I.load(l.back, loc + ("[]", l.kappa, "score"), "f")
        if t is ZERO:   # a future
            t = I.load(l.back, loc + ("[]", l.kappa, "$v", "score"), "f")
        return t
    fill = {}
    for l in loops_of(I.ev):
        for loc in l.mods:
            if loc[-1] == "$n":
                hd = I.load(l.head, loc, "u")
                if hd is l.kappa:
                    fill[loc[:-1]] = l
    # the returned container
    last = None
    for c, l in fill.items():
        if last is None or l.lid > fill[last].lid:
            last = c
    c, hops = last, 0
    while c is not None and hops < 4:
        l = fill[c]
        t = content(l, c)
        ok = isinstance(t, T) and any(z.op == "ev" and z.args and z.args[0] == ET for z in term_subterms(t))
        if ok and l is L:
            ctx.ok(R, "order", l.where)
            return
        src = None
        for c2 in fill:
            if c2 != c and isinstance(t, T) and any(y.op in ("ld", "mu", "sym", "kappa") and refers(y, c2) for y in term_subterms(t)):
                src = c2
        if src is None:
            ctx.undec(R, "order", l.where, "result %s" % short(showdd(t, 2)))
            return
        # index must be the same iteration
        idx = [y for y in term_subterms(t) if y.op == "kappa"]
        ok = idx == [l.kappa] and plain_index(t, l.kappa)
        ctx.check(R, "order", l.where, ok, "the i-th result is taken from evaluation %s" % short(showdd(t, 2)))
        if not ok:
            return
        c, hops = src, hops + 1
    ctx.undec(R, "order", f.where, "no container of results")


def plain_index(t, k):
    for y in term_subterms(t):
        if y.op == "ld" and "[]" in y.args[1]:
            i = y.args[1].index("[]")
            if y.args[1][i + 1] is k:
                return True
        if y.op == "ld" and y.args[1] and y.args[1][0] is k:
            return True
    return False


def refers(y, c):
    def has(x):
        if isinstance(x, tuple):
            return x == c or x[:len(c)] == c or any(has(z) for z in x)
        return False
    return any(has(a) for a in y.args)


PROPERTIES = {"E01": [e01], "E02": [e02], "E03": [e03], "E04": [e04], "E05": [e05], "E06": [e06], "E07": [e07], "E08": [e08], "E09": [e09],
              "E10": [e10], "E11": [e11], "E14": [e14]}
