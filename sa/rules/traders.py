"""The traders: emitted orders, price rules, configuration, names, grids."""
from fractions import Fraction
from ..util import *
from ..runner import Anchor
from .. import interp
from .account import dd_bind

TR = "trader::Trader"
EM = "trader::TraderEmitter"


def derived(ctx, base):
    out = sorted(k for k, r in ctx.P().records.items() if base in r["bases"] and r["file"].startswith("traders/"))
    if not out:
        raise Anchor("no class derived from %s in traders/" % base)
    return out


def config_of(ctx, cls):
    """(field, message) of the configuration held by a class."""
    for f in ctx.P().records[cls]["fields"]:
        t = f["t"].replace("const ", "").rstrip(" &*")
        if t.startswith("trader::") and t.endswith("Config"):
            return f["n"], t.split("::")[-1]
    return None, None


class Upd:
    pass


def update(ctx, cls):
    """One Update call on symbolic state, tick and balances."""
    key = "_upd_" + cls
    if hasattr(ctx, key):
        return getattr(ctx, key)
    f = ctx.fn(cls + "::Update", 0)
    if len(f.d["params"]) != 5:
        raise Anchor("%s::Update does not take five parameters" % cls)
    u = Upd()
    u.cls, u.f, u.where = cls, f, f.where
    tick = proot(f, 0)
    u.price = V(leaf(tick, "close", nn=True))
    u.ts = V(leaf(tick, "timestamp_sec", isint=True))
    u.base, u.quote = V(mkT("base", nn=True)), V(mkT("quote", nn=True))
    u.cfg, u.msg = config_of(ctx, cls)
    if u.cfg is None:
        raise Anchor("configuration of %s" % cls)
    I, st, v, rl = run(ctx, f, args=[None, None, u.base.d, u.quote.d, None])
    u.I, u.st, u.gaps = I, st, gaps(I)
    u.C = (proot(f, 4),)
    u.n0 = leaf(u.C[0], "$n", nn=True)
    u.n = V(I.load(st, u.C + ("$n",), "u"))
    # prices and balances: a price is positive, one of the balances is
    u.dom = ((u.price > 0) & ((u.base > 0) | (u.quote > 0))).d
    setattr(ctx, key, u)
    return u


def par(u, name):
    return V(leaf(THIS, u.cfg, name))


def slot(u, k, f, kind="f"):
    return V(u.I.load(u.st, u.C + ("[]", t_add(u.n0, num(k)), f), kind))


def enums(ctx):
    ty = enumval(ctx, "Order.Type")
    sd = enumval(ctx, "Order.Side")
    msg = message(ctx, "Order")
    am = {n: msg["fields"][n]["no"] for n in msg["fields"] if msg["fields"][n]["oneof"]}
    return ty, sd, am


def gap(ctx, R, u):
    if u.gaps:
        ctx.undec(R, u.cls, u.where, u.gaps[0])
        return True
    return False


def nth(u, k):
    """The condition that a (k+1)-th order is emitted."""
    return (u.n >= V(u.n0) + (k + 1)).d


def count_ok(ctx, R, u, hi=4):
    """Only appends a bounded number of orders, leaving earlier ones alone."""
    ok = differ(u.n.d, u.n0, dd_not((u.n >= V(u.n0)).d)) is FALSE
    ctx.check(R, u.cls + "/keeps", u.where, ok, "orders already in the list are removed")
    for loc in u.st.mem:
        if loc[:1] == u.C and len(loc) > 2 and loc[1] == "[]":
            k = t_sub(loc[2], u.n0) if isinstance(loc[2], T) else None
            if k is None or not (is_num(k) and k.args[0] >= 0):
                if k is not None and not is_num(k) or k is None:
                    ctx.undec(R, u.cls + "/position", u.where, "order at " + str(loc[2])[:100])
                    return False
                ctx.bad(R, u.cls + "/keeps", u.where, "changes an order that was already in the list")
    if nth(u, hi) is not FALSE:
        ctx.undec(R, u.cls + "/bounded", u.where, "number of orders " + short(showdd(u.n.d, 2)))
        return False
    return True


# ---------------------------------------------------------------- T01
def t01(ctx):
    R = "well-formed"
    ctx.rule(R, "for every trader and every path through Update, each appended order has type and side set, exactly one amount selected with the value stored in it, and a "
                "price set whenever it is a LIMIT or STOP order; orders already in the list are untouched")
    ty, sd, am = enums(ctx)
    for cls in derived(ctx, TR):
        u = update(ctx, cls)
        if gap(ctx, R, u) or not count_ok(ctx, R, u):
            continue
        for k in range(4):
            c = dd_and(nth(u, k), u.dom)
            if c is FALSE:
                continue
            nm = "%s/order-%d" % (cls.split("::")[-1], k)
            for f in ("type", "side"):
                d = dd_and(c, dd_not(slot(u, k, "has:" + f, "b").eq(1).d))
                ctx.check(R, nm + "/" + f, u.where, d is FALSE, "an order is emitted without %s when %s" % (f, short(witness(d))))
            case = slot(u, k, "case:oneof_amount", "e")
            good = FALSE
            for a, no in am.items():
                good = dd_or(good, case.eq(no).d)
            d = dd_and(c, dd_not(good))
            ctx.check(R, nm + "/amount", u.where, d is FALSE, "an order is emitted without an amount when %s" % short(witness(d)))
            for x in leaves(under(slot(u, k, "type", "e").d, c)):
                ctx.check(R, nm + "/known-type", u.where, is_num(x) and x.args[0] in ty.values(), "order type " + show(x))
            priced = dd_and(c, dd_not(slot(u, k, "type", "e").eq(ty["MARKET"]).d))
            d = dd_and(priced, dd_not(slot(u, k, "has:price", "b").eq(1).d))
            ctx.check(R, nm + "/price", u.where, d is FALSE, "a limit or stop order is emitted without a price when %s" % short(witness(d)))


# ---------------------------------------------------------------- reference comparison
def compare(ctx, R, u, want, dom, what):
    """want: list of (condition, {field: value}) in order of emission; a later
    order takes the next free slot."""
    if not count_ok(ctx, R, u):
        return
    n = V(u.n0)
    occupied = []
    for c, o in want:
        occupied.append((n, c, o))
        n = ite(c, n + 1, n)
    d = differ(u.n.d, n.d, dom)
    ctx.check(R, what + "/count", u.where, d is FALSE, "emits %s orders, not %s, when %s" % (
        short(showdd(t_rel(under(u.n.d, one(d)), u.n0), 1)), short(showdd(t_rel(under(n.d, one(d)), u.n0), 1)), short(witness(d))))
    if d is not FALSE:
        return
    for k in range(3):
        for i, (pos, c, o) in enumerate(occupied):
            here = dd_and(dd_and(dom, V(c).d), pos.eq(V(u.n0) + k).d)
            if here is FALSE:
                continue
            for f, v in o.items():
                if f == "$":
                    continue
                x = slot(u, k, f, "e" if f in ("type", "side", "case:oneof_amount") else "f")
                d = differ(x.d, V(v).d, here)
                ctx.check(R, "%s/%s/%s" % (what, o["$"] if "$" in o else i, f), u.where, d is FALSE, "the order's %s is %s, not %s, when %s" % (
                    f, short(showdd(under(x.d, one(d)), 1)), short(showdd(under(V(v).d, one(d)), 1)), short(witness(d))))


def t_rel(d, n0):
    return dd_apply(lambda t: t_sub(t, n0), d)


def one(d):
    l = one_cube(d)
    return cube(l) if l else TRUE


# ---------------------------------------------------------------- T02, T03
STOP = "trader::StopTrader"


def t02(ctx):
    R = "stop-order"
    ctx.rule(R, "every StopTrader update appends exactly one STOP order: it sells the whole base balance if the base is worth at least the quote balance, else it spends the "
                "whole quote balance; its price is the stop price kept by the trader")
    ty, sd, am = enums(ctx)
    u = update(ctx, STOP)
    if gap(ctx, R, u):
        return
    long_ = (u.base * u.price >= u.quote)
    compare(ctx, R, u, [(long_, {"$": "sell", "type": ty["STOP"], "side": sd["SELL"], "case:oneof_amount": am["base_amount"], "base_amount": u.base}),
                        (~long_, {"$": "buy", "type": ty["STOP"], "side": sd["BUY"], "case:oneof_amount": am["quote_amount"], "quote_amount": u.quote})],
            u.dom, "stop")
    loc = state(ctx, R, u)
    if loc:
        ctx.ok(R, "kept-price", u.where)


class State:
    pass


def state(ctx, R, u):
    """The fields that carry the stop price, the time and the mode from one
    update to the next, found by what is stored in them."""
    P = slot(u, 0, "price")
    s = State()
    s.P = P
    long_ = (u.base * u.price >= u.quote).d
    s.sop = s.ts = s.mode = None
    fields = ctx.P().records[u.cls]["fields"]
    for f in fields:
        n = f["n"]
        if n == u.cfg:
            continue
        kd = u.I.kinds.get((THIS, n)) or "f"
        x = u.I.load(u.st, (THIS, n), kd)
        if x is leaf(THIS, n) or x is P.d and s.sop:
            continue
        if differ(x, P.d, u.dom) is FALSE:
            s.sop = n
        elif s.ts is None and u.ts.d in set(leaves(x)):
            s.ts = n
            s.ts_kept = differ(x, u.ts.d, dd_and(u.dom, (u.ts > V(leaf(THIS, n))).d))
        elif s.mode is None and all(is_num(t) for t in leaves(x)):
            a, b = under(x, dd_and(u.dom, long_)), under(x, dd_and(u.dom, dd_not(long_)))
            a, b = single(dd_restrict(x, dd_and(u.dom, long_))), single(dd_restrict(x, dd_and(u.dom, dd_not(long_))))
            if a is not None and b is not None and a is not b:
                s.mode = (n, a, b)
    if not s.sop or not s.ts or not s.mode:
        ctx.undec(R, "state", u.where, "fields for stop price, time and mode: %s, %s, %s" % (s.sop, s.ts, s.mode))
        return None
    return s


def fresh(ctx, cls, emitter):
    """Memory of the trader a new emitter creates."""
    f = ctx.fn(emitter + "::NewTrader", 0)
    I, st, v, rl = run(ctx, f)
    t = single(v)
    if t is None or t.op != "ptr":
        return None
    return I, st, t.args[0], f


def constants(ctx, u, init):
    """Fields that keep the value the constructor gave them."""
    I, st, loc, f = init
    out = {}
    for fl in ctx.P().records[u.cls]["fields"]:
        n = fl["n"]
        if (THIS, n) in u.st.mem or n == u.cfg:
            continue
        kd = u.I.kind(fl["t"])
        if kd in ("f", "i", "u", "e", "b"):
            x = single(I.load(st, loc + (n,), kd))
            if x is not None and is_num(x):
                out[n] = x
    return out


def bind_fields(d, m):
    def f(t):
        l = ld_of(t)
        if l and l[0] == THIS and len(l[1]) == 1 and l[1][0] in m:
            return m[l[1][0]]
        return None
    return subst_term(d, f)


def t03(ctx):
    R = "stop-price"
    ctx.rule(R, "the stop price after an update equals the reference: on the first update, when the side changes or after a gap of an hour or more it is close * (1 - margin) "
                "for selling and close * (1 + margin) for buying; otherwise it only moves towards the price, by at most the configured rate per day scaled to the elapsed time, "
                "never past close * (1 -/+ move margin)")
    u = update(ctx, STOP)
    if gap(ctx, R, u):
        return
    s = state(ctx, R, u)
    if not s:
        return
    ctx.check(R, "time", u.where, s.ts_kept is FALSE, "the time of the last tick is not remembered when %s" % short(witness(s.ts_kept)))
    init = fresh(ctx, STOP, STOP + "Emitter")
    if init is None:
        ctx.undec(R, "initial", u.where, "the trader a new emitter creates")
        return
    cst = constants(ctx, u, init)
    P = V(bind_fields(s.P.d, cst))
    old = V(leaf(THIS, s.sop, nn=True))
    last_ts = V(leaf(THIS, s.ts))
    mode = V(leaf(THIS, s.mode[0]))
    mL, mC = s.mode[1], s.mode[2]
    long_ = u.base * u.price >= u.quote
    m, mm, inc, dec = (par(u, x) for x in ("stop_order_margin", "stop_order_move_margin", "stop_order_increase_per_day", "stop_order_decrease_per_day"))
    dt = u.ts - last_ts
    same = (long_ & mode.eq(mL)) | (~long_ & mode.eq(mC))
    days = V(u.ts.d) - last_ts
    per = 1 / (num(86400) / days)
    up = fun("exp", fun("log", 1 + inc) * per) * old
    down = fun("exp", fun("log", 1 - dec) * per) * old
    thrL, thrC = (1 - mm) * u.price, (1 + mm) * u.price
    moveL = ite(old <= thrL, vmax(old, vmin(thrL, up)), old)
    moveC = ite(old >= thrC, vmin(old, vmax(thrC, down)), old)
    start = ite(long_, (1 - m) * u.price, (1 + m) * u.price)
    want = ite(~same | (dt >= 3600), start, ite(long_, moveL, moveC))
    dom = dd_and(u.dom, (u.ts > last_ts).d)
    for nm, c in (("restart", dd_or(dd_not(same.d), (dt >= 3600).d)), ("raise", dd_and(long_.d, dd_and(same.d, (dt < 3600).d))),
                  ("lower", dd_and(dd_not(long_.d), dd_and(same.d, (dt < 3600).d)))):
        c = dd_and(c, dom)
        d = differ(P.d, want.d, c)
        ctx.check(R, nm, u.where, d is FALSE, "the stop price becomes %s, not %s, when %s" % (
            short(showdd(under(P.d, one(d)), 1)), short(showdd(under(want.d, one(d)), 1)), short(witness(d))))
    # first update
    I, st, loc, f = init
    first = {n: single(I.load(st, loc + (n,), u.I.kinds.get((THIS, n)) or "f")) for n in (s.sop, s.ts, s.mode[0])}
    if any(x is None or not is_num(x) for x in first.values()):
        ctx.undec(R, "initial", f.where, "initial state")
        return
    P1, w1, d1 = (bind_fields(x, first) for x in (P.d, start.d, u.dom))
    d = differ(P1, w1, dd_and(d1, (u.ts > 0).d))
    ctx.check(R, "initial", u.where, d is FALSE, "the first stop price is %s" % short(showdd(under(P1, one(d)), 1)))


# ---------------------------------------------------------------- T04
REB = "trader::RebalancingTrader"


def t04(ctx):
    R = "rebalance"
    ctx.rule(R, "with A+ = alpha(1+epsilon), A- = alpha(1-epsilon) and value v = base*close + quote: a base share above A+ gives one market sell, below A- one market buy, of "
                "the base amount that brings the share at the close price to alpha; otherwise, with both balances present, a limit sell of base*epsilon/(1+epsilon) at the price p "
                "with base*p/(base*p+quote) = A+ if A+ < 1 and close < p < 100 close, and a limit buy of base*epsilon/(1-epsilon) at the price with share A- if it is within "
                "(close/100, close); nothing else")
    ty, sd, am = enums(ctx)
    u = update(ctx, REB)
    if gap(ctx, R, u):
        return
    b, q, p = u.base, u.quote, u.price
    al, ep = par(u, "alpha"), par(u, "epsilon")
    v = b * p + q
    up, dn = al * (1 + ep), al * (1 - ep)
    share = b * p / v
    sell = share > up
    buy = ~sell & (share < dn)
    tiny = num(Fraction("1e-6"))
    mid = ~sell & ~buy & (b > tiny) & (q > tiny)
    ps = up * q / ((1 - up) * b)
    pb = dn * q / ((1 - dn) * b)
    lsell = mid & (up < 1) & (ps > p) & (ps < 100 * p)
    lbuy = mid & (pb < p) & (pb > p / 100)
    B = am["base_amount"]
    want = [(sell, {"$": "market-sell", "type": ty["MARKET"], "side": sd["SELL"], "case:oneof_amount": B, "base_amount": b - al * v / p}),
            (buy, {"$": "market-buy", "type": ty["MARKET"], "side": sd["BUY"], "case:oneof_amount": B, "base_amount": al * v / p - b}),
            (lsell, {"$": "limit-sell", "type": ty["LIMIT"], "side": sd["SELL"], "case:oneof_amount": B, "base_amount": b * ep / (1 + ep), "price": ps}),
            (lbuy, {"$": "limit-buy", "type": ty["LIMIT"], "side": sd["BUY"], "case:oneof_amount": B, "base_amount": b * ep / (1 - ep), "price": pb})]
    compare(ctx, R, u, want, u.dom, "rebalancing")


# ---------------------------------------------------------------- T05
def fmt_columns(t):
    """The comma separated columns of a formatted text, each a list of parts."""
    cols = [[]]
    for p in (t.args if t.op == "cat" else (t,)):
        if p.op == "str":
            xs = p.args[0].split(",")
            if xs[0]:
                cols[-1].append(string(xs[0]))
            for x in xs[1:]:
                cols.append([string(x)] if x else [])
        else:
            cols[-1].append(p)
    return cols


def cfg_fields(ctx, msg):
    return sorted(message(ctx, msg)["fields"])


def t05(ctx):
    R = "configured"
    ctx.rule(R, "an emitter keeps the configuration it is constructed with; NewTrader returns a newly allocated trader that holds every configuration field of the emitter and "
                "nothing else of it; the name contains every configuration field, in a fixed order, after a prefix of its own")
    names = {}
    for em in derived(ctx, EM):
        nm = em.split("::")[-1]
        cfg, msg = config_of(ctx, em)
        if cfg is None:
            ctx.undec(R, nm, "", "no configuration field")
            continue
        fs = cfg_fields(ctx, msg)
        # construction
        g = ctx.fn(em + "::" + nm, 0, pred=lambda f: len(f.d["params"]) == 1 and f.d.get("ck") not in ("copy", "move"))
        I, st, v, rl = run(ctx, g)
        for x in fs:
            y = I.load(st, (THIS, cfg, x), "f")
            ctx.check(R, "%s/keeps/%s" % (nm, x), g.where, y is leaf(proot(g, 0), x), "the emitter holds %s = %s" % (x, short(showdd(y, 2))))
        # new trader
        init = fresh(ctx, None, em)
        if init is None:
            ctx.undec(R, nm + "/new", "", "NewTrader")
            continue
        I, st, loc, f = init
        if gaps(I):
            ctx.undec(R, nm + "/new", f.where, gaps(I)[0])
            continue
        ctx.check(R, nm + "/fresh", f.where, loc[0][0] == "h" and len(loc) == 1, "the trader is not newly allocated: %s" % (loc,))
        tcls = single(I.load(st, loc + ("$type",), "s"))
        if tcls is None or tcls.op != "str" or tcls.args[0] not in ctx.P().records:
            ctx.undec(R, nm + "/type", f.where, "type of the new trader")
            continue
        tc, tm = config_of(ctx, tcls.args[0])
        ctx.check(R, nm + "/type", f.where, tm == msg, "a %s creates a %s" % (nm, tcls.args[0]))
        for x in fs:
            y = I.load(st, loc + (tc, x), "f")
            ctx.check(R, "%s/new/%s" % (nm, x), f.where, y is leaf(THIS, cfg, x), "the new trader's %s is %s" % (x, short(showdd(y, 2))))
        for k, y in st.mem.items():
            ctx.check(R, "%s/emitter-unchanged" % nm, f.where, k[0] != THIS, "creating a trader changes the emitter's %s" % (k,))
        # name
        f = ctx.fn(em + "::GetName", 0)
        I, st, v, rl = run(ctx, f)
        if gaps(I):
            ctx.undec(R, nm + "/name", f.where, gaps(I)[0])
            continue
        orders = set()
        for lits, t in cubes_of(v):
            if not isinstance(t, T):
                ctx.undec(R, nm + "/name", f.where, "name " + short(showdd(v, 2)))
                continue
            parts = t.args if t.op == "cat" else (t,)
            odd = [p for p in parts if p.op not in ("str", "fmt") and not ld_of(p)]
            if odd:
                ctx.undec(R, nm + "/name", f.where, "part of the name: " + show(odd[0]))
                continue
            lds = [(i, [y for y in term_subterms(p) if ld_of(y) and ld_of(y)[0] == THIS]) for i, p in enumerate(parts)]
            seen = [ld_of(y)[1][-1] for i, ys in lds for y in ys]
            ctx.check(R, nm + "/name", f.where, sorted(seen) == fs, "the name shows %s, the configuration has %s" % (", ".join(seen), ", ".join(fs)))
            for i, ys in lds:
                if not ys:
                    continue
                p = parts[i]
                fine = p is ys[0] or (p.op == "fmt" and p.args[1] is ys[0])
                digits = 99 if p is ys[0] else int(("0" + p.args[0].split(".")[-1].rstrip("fgeE")) if "." in p.args[0] else "6") if fine else 0
                ctx.check(R, "%s/name/%s" % (nm, ld_of(ys[0])[1][-1]), f.where, fine and digits >= 3, "the name shows %s" % show(p))
            sep = [i for i, ys in lds if ys]
            ctx.check(R, nm + "/name/separated", f.where, all(b - a > 1 for a, b in zip(sep, sep[1:])), "two values of the name run together")
            pre = parts[0].args[0] if parts[0].op == "str" else ""
            ctx.check(R, nm + "/name/prefix", f.where, pre and names.get(pre, nm) == nm, "the name starts like that of %s" % names.get(pre))
            names[pre] = nm
            orders.add((tuple(seen), tuple(p.args[0] if p.op == "str" else None for p in parts)))
        ctx.check(R, nm + "/name/order", f.where, len(orders) <= 1, "the layout of the name depends on the configuration: values are shown as %s" % " or ".join(", ".join(a) for a, b in sorted(orders, key=str)))


# ---------------------------------------------------------------- T06
GRID = {"alpha": "alphas", "epsilon": "epsilons", "stop_order_margin": "stop_order_margins", "stop_order_move_margin": "stop_order_move_margins",
        "stop_order_increase_per_day": "stop_order_increases_per_day", "stop_order_decrease_per_day": "stop_order_decreases_per_day"}
DEFAULTS = {"rebalancing": (REB + "Emitter", {"alpha": 0.7, "epsilon": 0.05}),
            "stop": (STOP + "Emitter", {"stop_order_margin": 0.1, "stop_order_move_margin": 0.1, "stop_order_increase_per_day": 0.01, "stop_order_decrease_per_day": 0.1})}


def near(x, y):
    return is_num(x) and abs(float(x.args[0]) - y) < 1e-6


def t06(ctx):
    R = "grid"
    ctx.rule(R, "GetBatchOfTraders of an emitter returns one emitter for every combination of the given parameter values: the appending statement is nested in one loop over each "
                "of the value lists, runs on every iteration, and sets each configuration field from the current element of its own list")
    for em in derived(ctx, EM):
        nm = em.split("::")[-1]
        cfg, msg = config_of(ctx, em)
        fs = cfg_fields(ctx, msg)
        f = ctx.fn(em + "::GetBatchOfTraders", 0)
        lists = {p["n"]: proot(f, i) for i, p in enumerate(f.d["params"])}
        # lists are matched to fields by position: the order of the message's fields
        order = [n for n, d in sorted(message(ctx, msg)["fields"].items(), key=lambda kv: kv[1]["no"])]
        if len(order) != len(f.d["params"]):
            ctx.undec(R, nm, f.where, "%d value lists for %d fields" % (len(f.d["params"]), len(order)))
            continue
        I, st, v, rl = run(ctx, f)
        if gaps(I):
            ctx.undec(R, nm, f.where, gaps(I)[0])
            continue
        # the appended element
        conts = {loc[:-1] for M in loops_of(I.ev) for loc in M.mods if loc[-1] == "$n"}
        sites = [(C, a) for C in conts for a in append_sites(I, C)]
        if len(sites) != 1:
            ctx.undec(R, nm + "/loops", f.where, "%d appending loops" % len(sites))
            continue
        C, a = sites[0]
        L, stack = a.L, a.stack
        x = differ(a.pc, body_pc(L), body_pc(L))
        ctx.check(R, nm + "/every", L.where, x is FALSE and a.odd is FALSE, "no emitter is added when %s" % short(witness(x)))
        n = I.load(st, (("ret", 0), "$n"), "u")
        want = V(1)
        for i in range(len(order)):
            want = want * V(leaf(proot(f, i), "$n", nn=True))
        d = differ(n, want.d)
        if d is not FALSE and mentions(n, lambda t: t.op not in ("ld", "poly", "num", "obj")):
            if x is FALSE:
                ctx.undec(R, nm + "/count", f.where, "number of emitters " + short(showdd(n, 2)))
        else:
            ctx.check(R, nm + "/count", f.where, d is FALSE, "%s emitters for the grid" % short(showdd(n, 2)))
        allL = list(stack) + [L]
        kap = {}
        for M in allL:
            for i in range(len(order)):
                if differ(M.cond, dd_apply(lambda c: t_lt(M.kappa, c), leaf(proot(f, i), "$n", nn=True)), M.pc) is FALSE and not [b for b in M.breaks if b.pc is not FALSE]:
                    kap[i] = M.kappa
        # symmetric lists cannot be told apart by length only when two loops run over the same list
        if len(kap) != len(order) or len(allL) != len(order):
            ctx.undec(R, nm + "/loops", f.where, "loops do not match the value lists one to one")
            continue
        el = dd_bind(a.hd, lambda h: I.load(L.back, C + ("[]", h), "p"))
        e = single(el)
        if e is None or e.op != "ptr":
            ctx.undec(R, nm + "/element", L.where, "appended element " + short(showdd(el, 2)))
            continue
        for M, N_ in zip(allL, allL[1:]):
            x = differ(N_.pc, body_pc(M), body_pc(M))
            ctx.check(R, nm + "/nested", N_.where, x is FALSE, "values are left out when %s" % short(witness(x)))
        for i, x in enumerate(order):
            y = I.load(L.back, e.args[0] + (cfg, x), "f")
            w = leaf(proot(f, i), "[]", kap[i])
            ctx.check(R, "%s/%s" % (nm, x), L.where, y is w, "%s is set to %s, not to an element of %s" % (x, short(showdd(y, 2)), f.d["params"][i]["n"]))
    R2 = "factory"
    ctx.rule(R2, "\"rebalancing\" and \"stop\" select the trader of that name with the documented default parameters, and the batch of that name")
    g = ctx.fn("trader::GetTrader", 0)
    I, st, v, rl = run(ctx, g)
    name = None
    arg = [t for t in term_subterms(v) if t.op == "arg"]
    if gaps(I):
        ctx.undec(R2, "GetTrader", g.where, gaps(I)[0])
    for key, (cls, params) in sorted(DEFAULTS.items()):
        sel = dd_of_name(v, key)
        t = single(sel)
        if t is None or t.op != "ptr":
            ctx.undec(R2, key, g.where, "trader %s is %s" % (key, short(showdd(sel, 2))))
            continue
        loc = t.args[0]
        ty = single(I.load(st, loc + ("$type",), "s"))
        ctx.check(R2, key + "/class", g.where, ty is string(cls), "trader %s is a %s" % (key, show(ty) if ty is not None else "?"))
        cfg, msg = config_of(ctx, cls)
        for n, x in params.items():
            y = single(I.load(st, loc + (cfg, n), "f"))
            ctx.check(R2, "%s/%s" % (key, n), g.where, y is not None and near(y, x), "default %s of %s is %s" % (n, key, show(y) if y is not None else "?"))
    g = ctx.fn("trader::GetBatchOfTraders", 0)
    ems = {cls: cls + "::GetBatchOfTraders" for key, (cls, _) in DEFAULTS.items()}
    I, st, v, rl = run(ctx, g, opaque=tuple(ems.values()))
    if gaps(I):
        ctx.undec(R2, "GetBatchOfTraders", g.where, gaps(I)[0])
    for key, (cls, _) in sorted(DEFAULTS.items()):
        evs = [(e, s) for e, s, pos in named(I.ev, *ems.values())]
        live = [e.name for e, s in evs if dd_of_name(e.pc, key) is not FALSE]
        ctx.check(R2, key + "/batch", g.where, live == [ems[cls]], "the batch of %s is made by %s" % (key, ", ".join(live) or "nothing"))


def dd_of_name(d, key):
    """d when the trader name is the literal key."""
    def go(x):
        if not isinstance(x, N):
            return x
        kind, k = fam_of(x.v)
        if kind == "eqc":
            c = eq_const(x.v)
            if c is not None and c.op == "str":
                return go(x.hi) if c.args[0] == key else go(x.lo)
        return dd_combine(x.v, go(x.hi), go(x.lo))
    return go(d)


# ---------------------------------------------------------------- T07
def t07(ctx):
    R = "state-line"
    ctx.rule(R, "after an update the internal state text is: the tick's timestamp, the base and quote balance the trader was given and the close price; for the stop trader also "
                "LONG or CASH and the stop price")
    for cls in derived(ctx, TR):
        u = update(ctx, cls)
        nm = cls.split("::")[-1]
        if gap(ctx, R, u):
            continue
        f = ctx.fn(cls + "::GetInternalState", 0)
        I, st, v, rl = run(ctx, f)
        if gaps(I):
            ctx.undec(R, nm, f.where, gaps(I)[0])
            continue

        def now(t):
            l = ld_of(t)
            if l and l[0] == THIS and (THIS,) + l[1] in u.st.mem:
                return u.I.load(u.st, (THIS,) + l[1], u.I.kinds.get((THIS,) + l[1]) or "f")
            return None
        want = [(u.ts, 0), (u.base, 3), (u.quote, 3), (u.price, 3)]
        dom = u.dom
        if cls == STOP:
            # the stop price is read off the emitted stop order
            want += [("mode", None), (slot(u, 0, "price"), 3)]
            dom = dd_and(dom, nth(u, 0))
        mode = (u.base * u.price >= u.quote).d
        for lits, t in cubes_of(v):
            cols = fmt_columns(t)
            c = subst_term(cube(lits), now)
            c = dd_and(c, dom)
            if c is FALSE:
                continue
            ctx.check(R, nm + "/columns", f.where, len(cols) == len(want), "%d columns" % len(cols))
            for i, (col, (w, dec)) in enumerate(zip(cols, want)):
                inst = "%s/column-%d" % (nm, i + 1)
                if len(col) != 1:
                    ctx.bad(R, inst, f.where, "column %d is %s" % (i + 1, [show(x) for x in col]))
                    continue
                p = col[0]
                if isinstance(w, str):
                    ok = p.op == "str" and p.args[0] in ("LONG", "CASH") and dd_and(c, dd_not(mode) if p.args[0] == "LONG" else mode) is FALSE
                    ctx.check(R, inst, f.where, ok, "the mode is shown as %s" % show(p))
                    continue
                val = p.args[1] if p.op == "fmt" else p
                if p.op == "fmt":
                    ctx.check(R, inst + "/digits", f.where, p.args[0].endswith("f") and p.args[0] in ("%%.%df" % k for k in range(dec, 10)), "format " + p.args[0])
                d = differ(subst_term(val, now), w.d, c)
                ctx.check(R, inst, f.where, d is FALSE, "column %d shows %s" % (i + 1, show(val)))


PROPERTIES = {"T01": [t01], "T02": [t02], "T03": [t03], "T04": [t04], "T05": [t05], "T06": [t06], "T07": [t07]}
