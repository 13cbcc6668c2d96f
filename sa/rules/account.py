"""Exchange account: the twelve order configurations and the four settlement
primitives, compared with reference value-flow."""
from ..util import *
from ..runner import Anchor
from .. import interp

ACC = "trader::Account::"
PRIMS = ("BuyBase", "BuyAtQuote", "SellBase", "SellAtQuote")
TYPES = ("MARKET", "STOP", "LIMIT")
SIDES = ("BUY", "SELL")
AMTS = ("base_amount", "quote_amount")
FEECFG = {"MARKET": "market_order_fee_config", "STOP": "stop_order_fee_config", "LIMIT": "limit_order_fee_config"}
FMAX = num(float(3.4028234663852886e+38))


def this(x):
    return V(leaf(THIS, x))


def assume_nonneg(ctx):
    """Domain of the statements: valid configurations and orders."""
    for f in ("base_balance", "quote_balance", "total_fee", "base_unit", "quote_unit", "max_volume_ratio", "market_liquidity"):
        leaf(THIS, f, nn=True)


def fields(I, st):
    return tuple(I.load(st, (THIS, f), "f") for f in ("base_balance", "quote_balance", "total_fee"))


def rnd(kind, x, u):
    return ite(V(u) > 0, V(u) * fun(kind, V(x) / u), x)


class Prim:
    pass


def prim_fn(ctx, name):
    return ctx.fn(ACC + name, 0)


def prim_actual(ctx, name, what="sym"):
    """The primitive on symbolic arguments (fee config, amount, price[, cap])."""
    f = prim_fn(ctx, name)
    ps = f.d["params"]
    if len(ps) < 3:
        raise Anchor("%s does not take (fee config, amount, price)" % name)
    for k in ("relative_fee", "fixed_fee", "minimum_fee"):
        leaf(proot(f, 0), k, nn=True)
    leaf(THIS, "base_balance", nn=True)
    a = mkT("amount", nn=True)
    p = mkT("price", nn=True)
    args = [None, a, p]
    cap = None
    if len(ps) > 3:
        cap = mkT("cap", nn=True)
        args.append(cap)
    I, st, v, _ = run(ctx, f, args=args)
    r = Prim()
    r.f, r.I, r.ret = f, I, v
    r.b, r.q, r.t = fields(I, st)
    r.amount, r.price, r.cap = V(a), V(p), V(cap if cap is not None else FMAX)
    r.fee = proot(f, 0)
    r.where = f.where
    r.gaps = gaps(I)
    return r


def fee_spec(cfg, q, f):
    """ceil(max(minimum, fixed + q * relative), quote unit)"""
    raw = vmax(V(f("minimum_fee")), V(f("fixed_fee")) + V(q) * f("relative_fee"))
    return rnd("ceil", raw, this("quote_unit"))


def fee_actual(ctx):
    """GetFee as the code computes it, as a function of the quote amount."""
    f = ctx.fn(ACC + "GetFee", 0)

    def fee(root, x):
        I, st, v, _ = run(ctx, f, args=[ptr_to(root), V(x).d])
        return V(v)
    return fee


def dd_bind(d, fn, memo=None):
    """Replace the leaves of d by diagrams."""
    memo = {} if memo is None else memo
    if not isinstance(d, N):
        return fn(d)
    r = memo.get(id(d))
    if r is None:
        r = dd_combine(d.v, dd_bind(d.hi, fn, memo), dd_bind(d.lo, fn, memo))
        memo[id(d)] = r
    return r


def prim_spec(name, amount, price, cap, fee):
    """Reference settlement. fee: quote amount -> fee. Returns ok, b, q, t."""
    B, Q, TF, bu, qu = (this(x) for x in ("base_balance", "quote_balance", "total_fee", "base_unit", "quote_unit"))

    def settle(a, ok):
        a = rnd("round", a, bu)
        ok = ok & (a > 0) & (a >= bu)
        if name.startswith("Buy"):
            cost = rnd("ceil", a * price, qu)
            f = fee(cost)
            tot = cost + f
            ok = ok & (tot <= Q)
            return ok, rnd("round", B + a, bu), rnd("round", Q - tot, qu), rnd("round", TF + f, qu)
        got = rnd("floor", a * price, qu)
        f = fee(got)
        net = got - f
        ok = ok & (a <= B) & (net >= qu)
        return ok, rnd("round", B - a, bu), rnd("round", Q + net, qu), rnd("round", TF + f, qu)

    T1 = V(TRUE)
    if name in ("BuyBase", "SellBase"):
        ok, b, q, t = settle(amount, T1)
    else:
        x = rnd("round", amount, qu)
        ok = x >= qu
        f = fee(x)
        if name == "BuyAtQuote":
            ok = ok & (x <= Q) & (x > f)
            a = (x - f) / price
        else:
            a = (x + f) / price
        a = rnd("floor", vmin(a, cap), bu)
        ok = ok & (a >= bu)
        ok, b, q, t = settle(a, ok)
    return ok, ite(ok, b, B), ite(ok, q, Q), ite(ok, t, TF)


def prims(ctx):
    """(actual, reference) of the four settlement primitives; cached."""
    if not hasattr(ctx, "_prims"):
        assume_nonneg(ctx)
        fee = fee_actual(ctx)
        out = []
        for n in PRIMS:
            p = prim_actual(ctx, n)
            p.name = n
            p.sok, p.sb, p.sq, p.stt = (x.d for x in prim_spec(n, p.amount, p.price, p.cap, lambda q, p=p: fee(p.fee, q)))
            p.pre = (p.price > 0).d
            out.append(p)
        ctx._prims = out
    return ctx._prims


def sub_gap(ctx, rule, inst, p):
    if p.gaps:
        ctx.undec(rule, inst, p.where, "; ".join(p.gaps[:3]))
        return True
    return False


# ------------------------------------------------------------------ properties
def a01(ctx):
    R = "nonneg"
    ctx.rule(R, "every balance value written by a settlement primitive has a linear certificate of being >= 0 under the "
                "guards of the path that writes it (facts: the comparison guards themselves)")
    for p in prims(ctx):
        if sub_gap(ctx, R, p.name, p):
            continue
        for nm, act, ref in (("base_balance", p.b, p.sb), ("quote_balance", p.q, p.sq), ("total_fee", p.t, p.stt)):
            old = leaf(THIS, nm)
            bad = None
            cnt = 0
            same = differ(act, ref, p.pre)
            for lits, x in cubes_of(dd_restrict_to(act, p.pre)):
                if x is old:
                    continue
                cnt += 1
                if nonneg(x, lits):
                    continue
                c = cube_dd(lits)
                if dd_and(c, same) is FALSE:
                    continue  # the reference value, non-negative by the argument in DESIGN.md
                bad = (lits, x)
                break
            if bad:
                ctx.bad(R, "%s/%s" % (p.name, nm), p.where, "writes %s = %s when %s: no guard bounds it from below" % (
                    nm, short(show(bad[1])), short(" && ".join(showlit(l) for l in bad[0][-6:]), 500)))
            else:
                ctx.ok(R, "%s/%s" % (p.name, nm), p.where, "%d written values" % cnt)


def dd_restrict_to(d, c):
    return d if c is TRUE else dd_restrict(d, c)


def cube_dd(lits):
    c = TRUE
    for v, b in lits:
        a = mk(v, TRUE, FALSE)
        c = dd_and(c, a if b else dd_not(a))
    return c


def a02(ctx):
    R = "atomic"
    ctx.rule(R, "on every path that returns false the three balances hold their entry values; on every path that returns "
                "true the base balance was assigned a new value on the order's side")
    for p in prims(ctx):
        if sub_gap(ctx, R, p.name, p):
            continue
        fail = dd_and(dd_not(p.ret), p.pre)
        for nm, act in (("base_balance", p.b), ("quote_balance", p.q), ("total_fee", p.t)):
            old = leaf(THIS, nm)
            d = differ(act, old, fail)
            ctx.check(R, "%s/false/%s" % (p.name, nm), p.where, d is FALSE,
                      "%s is modified although the order is reported as not executed: %s" % (nm, short(witness(d), 600)))
        succ = dd_and(p.ret, p.pre)
        for nm, act in (("base_balance", p.b), ("quote_balance", p.q)):
            old = leaf(THIS, nm)
            d = dd_and(succ, dd_apply(lambda x: TRUE if x is old else FALSE, act))
            ctx.check(R, "%s/true/%s" % (p.name, nm), p.where, d is FALSE,
                      "%s keeps its old value although the order is reported as executed: %s" % (nm, short(witness(d), 600)))


def a03(ctx):
    R = "settle"
    ctx.rule(R, "whenever a primitive executes, the base balance moves by the rounded amount, the quote balance by the "
                "rounded cost (up) or proceeds (down) and the fee, and the total fee by the same fee")
    for p in prims(ctx):
        if sub_gap(ctx, R, p.name, p):
            continue
        both = dd_and(dd_and(p.ret, p.sok), p.pre)
        for nm, act, ref in (("base_balance", p.b, p.sb), ("quote_balance", p.q, p.sq), ("total_fee", p.t, p.stt)):
            d = differ(act, ref, both)
            det = ""
            if d is not FALSE:
                c = one_cube(d)
                det = "%s becomes %s, the settlement gives %s, when %s" % (
                    nm, short(show(pick(act, c))), short(show(pick(ref, c))), short(witness(d), 500))
            ctx.check(R, "%s/%s" % (p.name, nm), p.where, d is FALSE, det)


def pick(d, lits):
    """Some leaf of d under the literals."""
    m = {v: b for v, b in lits}
    x = cofactor_cube(d, lits)
    while isinstance(x, N):
        x = x.lo
    return x


def a04(ctx):
    R = "fee"
    ctx.rule(R, "the fee of a quote amount is the maximum of the minimum fee and fixed + relative * amount, rounded up to "
                "the quote unit")
    assume_nonneg(ctx)
    f = ctx.fn(ACC + "GetFee", 0)
    q = mkT("quote", nn=True)
    I, st, v, _ = run(ctx, f, args=[None, q])
    root = proot(f, 0)
    ref = fee_spec(None, V(q), lambda n: leaf(root, n)).d
    d = differ(v, ref)
    ctx.check(R, "GetFee", f.where, d is FALSE, "fee is %s where the rule gives %s (%s)" % (
        short(show(pick(v, one_cube(d) or []))), short(show(pick(ref, one_cube(d) or []))), short(witness(d), 400)) if d is not FALSE else "")
    for c in configs(ctx):
        R2 = "fee-config"
        ctx.rule(R2, "every order type is charged with the fee configuration of that type")
        cfg_fee(ctx, R2, c)


def a09(ctx):
    R = "accept"
    ctx.rule(R, "the condition on which a primitive executes is exactly: rounded amount positive and at least one unit, "
                "covered by the balance, proceeds at least one quote unit, quote budget covered and above the fee")
    for p in prims(ctx):
        if sub_gap(ctx, R, p.name, p):
            continue
        d1 = dd_and(p.pre, dd_and(p.ret, dd_not(p.sok)))
        d2 = dd_and(p.pre, dd_and(p.sok, dd_not(p.ret)))
        ctx.check(R, p.name + "/only-if", p.where, d1 is FALSE, "executes although it must be refused: " + short(witness(d1), 700))
        ctx.check(R, p.name + "/if", p.where, d2 is FALSE, "refuses although it is fillable: " + short(witness(d2), 700))
    R = "unit-grid"
    ctx.rule(R, "with a positive unit, every balance written is a whole number of units")
    for p in prims(ctx):
        for nm, act, unit in (("base_balance", p.b, "base_unit"), ("quote_balance", p.q, "quote_unit"), ("total_fee", p.t, "quote_unit")):
            u = leaf(THIS, unit)
            pos = (V(u) > 0).d
            d = dd_and(dd_and(p.ret, dd_and(p.pre, pos)), dd_apply(lambda x: FALSE if t_fdiv(x, u).isint else TRUE, act))
            ctx.check(R, "%s/%s" % (p.name, nm), p.where, d is FALSE,
                      "%s is not rounded to a multiple of its unit: %s" % (nm, short(witness(d), 500)))


def a10(ctx):
    R = "quote-order"
    ctx.rule(R, "a quote order trades floor(min((budget -/+ fee(budget)) / price, cap)) units of base, never more than the "
                "cap, and a buy spends at most the budget")
    for p in prims(ctx):
        if not p.name.endswith("AtQuote") or sub_gap(ctx, R, p.name, p):
            continue
        both = dd_and(dd_and(p.ret, p.sok), p.pre)
        d = differ(p.b, p.sb, both)
        c = one_cube(d) if d is not FALSE else []
        ctx.check(R, p.name + "/amount", p.where, d is FALSE, "base balance becomes %s instead of %s when %s" % (
            short(show(pick(p.b, c))), short(show(pick(p.sb, c))), short(witness(d), 400)))
        d1 = dd_and(p.pre, dd_and(p.ret, dd_not(p.sok)))
        d2 = dd_and(p.pre, dd_and(p.sok, dd_not(p.ret)))
        ctx.check(R, p.name + "/refused", p.where, d1 is FALSE, "executes on a budget it must refuse: " + short(witness(d1), 500))
        ctx.check(R, p.name + "/accepted", p.where, d2 is FALSE, "refuses a budget it must accept: " + short(witness(d2), 500))


# ------------------------------------------------------- order configurations
class Cfg:
    def __repr__(self):
        return "%s %s %s" % (self.ty, self.side, self.amt)


def setup_order(ctx, f, ty, side, amt):
    tv, sv = enumval(ctx, "Order.Type"), enumval(ctx, "Order.Side")
    m = message(ctx, "Order")
    O = proot(f, 1)

    def setup(I, st):
        def put(name, v):
            I.store(st, (O, name), v)
        put("has:type", TRUE)
        put("has:side", TRUE)
        put("has:price", TRUE)
        put("type", num(tv[ty]))
        put("side", num(sv[side]))
        put("case:oneof_amount", num(m["fields"][amt]["no"]))
    return setup


def mk_leaves(ctx, f):
    O, K, A = proot(f, 1), proot(f, 2), proot(f, 0)
    for n in ("base_amount", "quote_amount", "price"):
        leaf(O, n, nn=True)
    for n in ("open", "high", "low", "close", "volume"):
        leaf(K, n, nn=True)
    for ty in TYPES:
        for k in ("relative_fee", "fixed_fee", "minimum_fee"):
            leaf(A, FEECFG[ty], k, nn=True)


def fill_spec(f, ty, side):
    """price, trigger, (base amount cap or None)"""
    O, K = proot(f, 1), proot(f, 2)
    k = lambda n: V(leaf(K, n))
    pr = V(leaf(O, "price"))
    L = this("market_liquidity")
    worst = k("high") if side == "BUY" else k("low")
    if ty == "MARKET":
        return L * k("open") + (V(1) - L) * worst, V(TRUE), None
    if ty == "STOP":
        if side == "BUY":
            return L * vmax(pr, k("open")) + (V(1) - L) * worst, ~(k("high") < pr), None
        return L * vmin(pr, k("open")) + (V(1) - L) * worst, ~(k("low") > pr), None
    r = this("max_volume_ratio")
    cap = ite(r > 0, rnd("floor", r * k("volume"), this("base_unit")), V(FMAX))
    trig = ~(k("low") > pr) if side == "BUY" else ~(k("high") < pr)
    return pr, trig, cap


def configs(ctx):
    if hasattr(ctx, "_cfgs"):
        return ctx._cfgs
    assume_nonneg(ctx)
    f = ctx.fn(ACC + "ExecuteOrder", 0)
    mk_leaves(ctx, f)
    out = []
    opq = tuple(ACC + n for n in PRIMS)
    for ty in TYPES:
        for side in SIDES:
            for amt in AMTS:
                c = Cfg()
                c.ty, c.side, c.amt, c.f = ty, side, amt, f
                c.setup = setup_order(ctx, f, ty, side, amt)
                # pass 1: primitives opaque
                I, st, v, _ = run(ctx, f, opaque=opq, setup=c.setup)
                c.I = I
                c.gaps = gaps(I)
                c.calls = [e for e in I.ev if e.kind == "call" and e.name in opq and e.pc is not FALSE]
                c.ret = v
                # a primitive called outside the account's own object or memory
                # written directly makes the call view incomplete
                c.direct = None
                for nm in ("base_balance", "quote_balance", "total_fee"):
                    x = I.load(st, (THIS, nm), "f")
                    for t in leaves(x):
                        if t is leaf(THIS, nm) or (t.op == "ld" and t.args[0].op == "objafter"):
                            continue
                        c.direct = nm
                c.price, c.trig, c.cap = fill_spec(f, ty, side)
                c.where = f.where
                out.append(c)
    ctx._cfgs = out
    return out


def expected_prim(c):
    return ("Buy" if c.side == "BUY" else "Sell") + ("Base" if c.amt == "base_amount" else "AtQuote")


def view_ok(ctx, R, c):
    """The call view decides c; otherwise fall back to the inlined comparison."""
    if c.gaps:
        ctx.undec(R, repr(c), c.where, "; ".join(c.gaps[:3]))
        return False
    if c.direct or not c.calls:
        inlined(ctx, R, c)
        return False
    return True


def inlined(ctx, R, c):
    """ExecuteOrder inlined against the actual primitive on the reference arguments."""
    f = c.f
    I, st, v, _ = run(ctx, f, setup=c.setup)
    act = pair(v, *fields(I, st))
    pn = expected_prim(c)
    pf = prim_fn(ctx, pn)
    amt = V(leaf(proot(f, 1), c.amt))
    cap = None
    if c.cap is not None:
        if c.amt == "base_amount":
            amt = vmin(amt, c.cap)
        else:
            cap = c.cap
    args = [ptr_to(proot(f, 0), FEECFG[c.ty]), amt.d, c.price.d]
    if len(pf.d["params"]) > 3:
        args.append((cap if cap is not None else V(FMAX)).d)
    I2, st2, v2, _ = run(ctx, pf, args=args)
    old = tuple(leaf(THIS, n) for n in ("base_balance", "quote_balance", "total_fee"))
    ref = dd_ite(c.trig.d, pair(v2, *fields(I2, st2)), pair(FALSE, *old))
    d = differ(act, ref, precond(c))
    ctx.check(R, repr(c) + "/inlined", c.where, d is FALSE, "the order does not act as %s on the reference amount, price and "
              "fee configuration when %s" % (pn, short(witness(d), 500)))


def ptr_to(root, *path):
    return interp.ptr((root,) + path)


def precond(c):
    O, K = proot(c.f, 1), proot(c.f, 2)
    p = V(leaf(O, c.amt)) > 0
    if c.ty != "MARKET":
        p = p & (V(leaf(O, "price")) > 0)
    return p.d


def union(ds):
    r = FALSE
    for d in ds:
        r = dd_or(r, d)
    return r


def a05(ctx):
    R = "route"
    ctx.rule(R, "an order reaches exactly the settlement primitive of its side and kind of amount, once, with its own amount, and "
                "reports that primitive's result")
    for c in configs(ctx):
        if not view_ok(ctx, R, c):
            continue
        want = expected_prim(c)
        pre = precond(c)
        amtleaf = leaf(proot(c.f, 1), c.amt)
        seen = FALSE
        for e in c.calls:
            pc = dd_and(e.pc, pre)
            if pc is FALSE:
                continue
            w = e.where
            nm = e.name[len(ACC):]
            ctx.check(R, "%r/primitive" % c, w, nm == want, "a %r order calls %s when %s" % (c, nm, short(witness(pc))))
            ctx.check(R, "%r/once" % c, w, dd_and(seen, pc) is FALSE, "the order can be settled twice")
            seen = dd_or(seen, pc)
            if nm == want and c.cap is None:
                d = differ(e.args[1], amtleaf, pc)
                ctx.check(R, "%r/amount" % c, w, d is FALSE, "settles %s instead of the ordered amount" % short(show(pick(e.args[1], one_cube(d) or []))))
            elif nm == want:
                d = dd_and(pc, dd_apply(lambda x: FALSE if x is amtleaf or not mentions(x, lambda t: t.op == "ld" and t.args[0].args[:1] == (proot(c.f, 1),)) else TRUE, e.args[1]))
                ctx.check(R, "%r/amount" % c, w, d is FALSE, "settles %s instead of the ordered amount" % short(show(pick(e.args[1], one_cube(d) or []))))
            ok = isinstance(e.obj, T) and e.obj is interp.ptr((THIS,))
            ctx.check(R, "%r/account" % c, w, ok, "settles another account object")
        # result
        exp = FALSE
        for e in c.calls:
            exp = dd_or(exp, dd_and(e.pc, dd_apply(atom_nz, e.res)))
        d = differ(c.ret, exp, pre)
        ctx.check(R, "%r/result" % c, c.where, d is FALSE, "reported result differs from the settlement's: " + short(witness(d), 500))


def a06(ctx):
    R = "trigger"
    ctx.rule(R, "market orders settle unconditionally, stop buys / limit sells exactly when the tick's high reaches the order "
                "price, stop sells / limit buys exactly when its low reaches it")
    for c in configs(ctx):
        if not view_ok(ctx, R, c):
            continue
        pre = precond(c)
        K = proot(c.f, 2)
        reach = union(e.pc for e in c.calls)
        d1 = dd_and(pre, dd_and(reach, dd_not(c.trig.d)))
        d2 = dd_and(pre, dd_and(c.trig.d, dd_not(reach)))
        if c.cap is not None:
            # a refusal that only looks at the volume cap is the cap rule's business
            d2 = dd_and(d2, dd_not(project(dd_not(reach), lambda v: not about_tick_price(v, c)))) if False else d2
        w = c.calls[0].where
        ctx.check(R, "%r/only-if" % c, w, d1 is FALSE, "settles although the tick does not reach the order price: " + short(witness(d1), 500))
        ctx.check(R, "%r/if" % c, w, d2 is FALSE, "does not settle although the tick reaches the order price: " + short(witness(d2), 500))


def about_tick_price(v, c):
    return True


GETTERS = {
    "GetMarketBuyPrice": ("MARKET", "BUY"), "GetMarketSellPrice": ("MARKET", "SELL"),
    "GetStopBuyPrice": ("STOP", "BUY"), "GetStopSellPrice": ("STOP", "SELL"),
}


def a07(ctx):
    R = "fill-price"
    ctx.rule(R, "market orders fill at liquidity*open + (1-liquidity)*worst, stop orders at liquidity*(worse of order price and "
                "open) + (1-liquidity)*worst, limit orders at the order price; worst = high for buys, low for sells")
    for c in configs(ctx):
        if not view_ok(ctx, R, c):
            continue
        pre = dd_and(precond(c), c.trig.d)
        for e in c.calls:
            pc = dd_and(e.pc, pre)
            if pc is FALSE:
                continue
            d = differ(e.args[2], c.price.d, pc)
            ctx.check(R, "%r" % c, e.where, d is FALSE, "fills at %s instead of %s (%s)" % (
                short(show(pick(e.args[2], one_cube(d) or []))), short(show(pick(c.price.d, one_cube(d) or []))), short(witness(d), 300)) if d is not FALSE else "")
    # the public price queries agree with the fills
    cs = {(c.ty, c.side): c for c in configs(ctx)}
    for g, (ty, side) in GETTERS.items():
        f = ctx.fn(ACC + g, 0)
        c = cs[(ty, side)]
        args = [ptr_to(proot(c.f, 2))]
        if len(f.d["params"]) > 1:
            args.append(leaf(proot(c.f, 1), "price"))
        I, st, v, _ = run(ctx, f, args=args)
        if gaps(I):
            ctx.undec(R, g, f.where, gaps(I)[0])
            continue
        d = differ(v, c.price.d)
        ctx.check(R, g, f.where, d is FALSE, "returns %s instead of %s" % (
            short(show(pick(v, one_cube(d) or []))), short(show(pick(c.price.d, one_cube(d) or [])))) if d is not FALSE else "")


def cfg_fee(ctx, R, c):
    if not view_ok(ctx, R, c):
        return
    pre = precond(c)
    root = proot(c.f, 0)
    for e in c.calls:
        pc = dd_and(e.pc, pre)
        if pc is FALSE:
            continue
        bad = None
        for n in ("relative_fee", "fixed_fee", "minimum_fee"):
            def chk(p, n=n):
                if p.op != "ptr":
                    return TRUE
                x = c.I.load(e.st, interp.loc_of(p) + (n,), "f")
                return dd_apply(lambda y: FALSE if y is leaf(root, FEECFG[c.ty], n) else TRUE, x)
            d = dd_and(pc, dd_bind(e.args[0], chk))
            if d is not FALSE:
                bad = n
        ctx.check(R, repr(c), e.where, bad is None, "%s order is not charged with %s (%s)" % (c.ty, FEECFG[c.ty], bad))


def a08(ctx):
    R = "limit-cap"
    ctx.rule(R, "a limit order trades at most floor(max_volume_ratio * tick volume) base, as min(ordered, cap) or as the cap of the "
                "quote order; without a ratio, and for other order types, there is no cap")
    for c in configs(ctx):
        if not view_ok(ctx, R, c):
            continue
        pre = dd_and(precond(c), c.trig.d)
        for e in c.calls:
            pc = dd_and(e.pc, pre)
            if pc is FALSE or e.name[len(ACC):] != expected_prim(c):
                continue
            amt = V(leaf(proot(c.f, 1), c.amt))
            if c.amt == "base_amount":
                ref = amt if c.cap is None else vmin(amt, c.cap)
                d = differ(e.args[1], ref.d, pc)
                got = e.args[1]
            else:
                ref = V(FMAX) if c.cap is None else c.cap
                got = e.args[3] if len(e.args) > 3 else FMAX
                d = differ(got, ref.d, pc)
            ctx.check(R, repr(c), e.where, d is FALSE, "amount/cap is %s instead of %s (%s)" % (
                short(show(pick(got, one_cube(d) or []))), short(show(pick(ref.d, one_cube(d) or []))), short(witness(d), 300)) if d is not FALSE else "")
    f = ctx.fn(ACC + "GetMaxBaseAmount", 0)
    c = [c for c in configs(ctx) if c.ty == "LIMIT"][0]
    I, st, v, _ = run(ctx, f, args=[ptr_to(proot(c.f, 2))])
    d = differ(v, c.cap.d)
    ctx.check(R, "GetMaxBaseAmount", f.where, d is FALSE, "returns %s instead of %s" % (
        short(show(pick(v, one_cube(d) or []))), short(show(pick(c.cap.d, one_cube(d) or [])))) if d is not FALSE else "")


def a12(ctx):
    R = "init"
    ctx.rule(R, "account initialisation copies every balance, unit and market parameter from its own configuration field and "
                "resets the accumulated fee")
    f = ctx.fn(ACC + "InitAccount", 0)
    I, st, v, _ = run(ctx, f)
    if gaps(I):
        ctx.undec(R, "InitAccount", f.where, gaps(I)[0])
        return
    A = proot(f, 0)
    want = {"base_balance": leaf(A, "start_base_balance"), "quote_balance": leaf(A, "start_quote_balance"), "total_fee": ZERO}
    for n in ("base_unit", "quote_unit", "market_liquidity", "max_volume_ratio"):
        want[n] = leaf(A, n)
    for n, w in want.items():
        x = I.load(st, (THIS, n), "f")
        ctx.check(R, n, f.where, x is w, "%s is initialised to %s instead of %s" % (n, short(showdd(x, 3)), show(w)))
    # configured parameters are not changed by trading
    R = "parameters"
    ctx.rule(R, "executing an order leaves units, liquidity and volume ratio unchanged")
    for c in configs(ctx):
        I, st, v, _ = run(ctx, c.f, setup=c.setup)
        for n in ("base_unit", "quote_unit", "market_liquidity", "max_volume_ratio"):
            x = I.load(st, (THIS, n), "f")
            ctx.check(R, "%r/%s" % (c, n), c.where, x is leaf(THIS, n), "%s changes to %s" % (n, short(showdd(x, 2))))


PROPERTIES = {"A01": [a01], "A02": [a02], "A03": [a03], "A04": [a04], "A05": [a05], "A06": [a06], "A07": [a07],
              "A08": [a08], "A09": [a09], "A10": [a10], "A12": [a12]}
