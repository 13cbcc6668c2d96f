"""The technical indicators: tick windows, averages, oscillators."""
from ..util import *
from ..runner import Anchor
from ..core import AnalysisLimit
from .. import interp

LN = "trader::LastNOhlcTicks"
OHLCV = ("open", "high", "low", "close", "volume")


def fields(ctx, cls, pred):
    r = ctx.P().records.get(cls)
    if r is None:
        raise Anchor("class %s not found in the current tree" % cls)
    return [f["n"] for f in r["fields"] if pred(f["t"])]


def one_field(ctx, cls, pred, what):
    fs = fields(ctx, cls, pred)
    if len(fs) != 1:
        raise AnalysisLimit("%s holds %d members of type %s" % (cls, len(fs), what))
    return fs[0]


def ctor(ctx, cls, nargs):
    fs = [f for f in ctx.fn(cls + "::" + cls.split("::")[-1]) if len(f.d["params"]) == nargs]
    if len(fs) != 1:
        raise Anchor("constructor of %s with %d parameters" % (cls, nargs))
    return fs[0]


def tick_ptr(name):
    return interp.ptr((("P", 50, name),))


def tk(name, f="close"):
    return V(leaf(("P", 50, name), f, isint=f == "timestamp_sec"))


class Obj:
    """An object built by its constructor and driven through its methods."""

    def __init__(self, ctx, cls, args, opaque=(), dom=TRUE):
        budget()
        self.ctx, self.cls = ctx, cls
        self.I = interp.Interp(ctx.P(), opaque=tuple(opaque))
        self.I.unroll = 4
        self.st = interp.St(dom)
        self.this = interp.ptr((THIS,))
        self.f = ctor(ctx, cls, len(args))
        self.mark = 0
        self.I.run(self.f, args=[V(a).d for a in args], this=self.this, st=self.st)
        # calls of its virtual methods are calls of this class
        self.I.store(self.st, (THIS, "$type"), string(cls), "s")
        self.made = self.events()

    def events(self):
        out = self.I.ev[self.mark:]
        self.mark = len(self.I.ev)
        return out

    def call(self, name, *args):
        f = self.ctx.fn(self.cls + "::" + name, 0)
        if len(f.d["params"]) != len(args):
            raise Anchor("%s takes %d parameters" % (f.qn, len(f.d["params"])))
        st, v, rl = self.I.run(f, args=[a if isinstance(a, (T, N)) else V(a).d for a in args], this=self.this, st=self.st)
        self.where = f.where
        return V(v) if v is not None else None

    @property
    def gaps(self):
        self.ctx.analysed(self.I)
        return gaps(self.I)


# ---------------------------------------------------------------- I01, I02: the window of ticks
CB = {"updated": "RegisterLastTickUpdatedCallback", "added": "RegisterNewTickAddedCallback",
      "shifted": "RegisterNewTickAddedAndOldestTickRemovedCallback"}


def window(ctx, empty):
    """One Update of a tick window with three registered callbacks."""
    key = "_ln_%d" % empty
    if hasattr(ctx, key):
        return getattr(ctx, key)
    F = one_field(ctx, LN, lambda t: t.startswith("std::deque<"), "std::deque")
    N_, P_ = mkT("N", isint=True, nn=True), mkT("P", isint=True, nn=True)
    o = Obj(ctx, LN, [N_, P_])
    o.N, o.P = V(N_), V(P_)
    for i, (k, m) in enumerate(sorted(CB.items())):
        o.call(m, interp.ptr((("P", 60 + i, k),)))
    o.C = (THIS, F)
    if not empty:
        o.I.clear(o.st, o.C)
        o.some = (V(o.I.load(o.st, o.C + ("$n",), "u")) >= 1).d
        o.st.pc = dd_and(o.st.pc, o.some)
    o.events()
    o.call("Update", tick_ptr("tick"))
    o.ev = o.events()
    o.adj = o.P * V(t_idiv(tk("tick", "timestamp_sec").d, P_))
    setattr(ctx, key, o)
    return o


def cells(I, st, C, i, kinds=OHLCV + ("timestamp_sec",)):
    return {f: elem(I, st, C, i, f, "i" if f == "timestamp_sec" else "f") for f in kinds}


def pointed(I, st, p):
    return {f: dd_apply(lambda q: I.load(st, interp.loc_of(q) + (f,), "i" if f == "timestamp_sec" else "f"), p) for f in OHLCV + ("timestamp_sec",)}


def same(a, b, dom):
    """The field in which two ticks differ, with a witness, or None."""
    for f in a:
        d = differ(a[f], b[f], dom)
        if d is not FALSE:
            return f, short(witness(d), 160)
    return None


class Step:
    """A transition of the window: the states before and after it, the condition, and the events within it."""


def steps(ctx, R):
    """The transitions one Update goes through, or None."""
    out = []
    a, b = window(ctx, True), window(ctx, False)
    for o in (a, b):
        if o.gaps:
            ctx.undec(R, LN, o.where, o.gaps[0])
            return None
    dom = lambda o, n: ((o.N >= 1) & (o.P >= 1) & (n <= o.N)).d
    s = Step()
    s.o, s.name, s.before, s.after, s.ev = a, "first", None, a.st, a.ev
    s.c = dom(a, V(0))
    if any(isinstance(e, interp.Loop) for e in a.ev):
        ctx.undec(R, "first", a.where, "a loop in the first update")
        return None
    out.append(s)
    no = b.C + ("$n",)
    Ls = [e for e in b.ev if isinstance(e, interp.Loop)]
    if len(Ls) != 1 or no not in Ls[0].mods or Ls[0].back.pc is FALSE or [x for x in Ls[0].breaks if x.pc is not FALSE] or [x for x in loops_of(Ls[0].ev)]:
        ctx.undec(R, "fill", b.where, "the backfill is not one loop over the window")
        return None
    L = Ls[0]
    n = V(b.I.load(L.head, no, "u"))
    d = dd_and(dd_and(dom(b, n), (n >= 1).d), b.some)
    for nm, after, c, ev in (("fill", L.back, L.cond, L.ev), ("last", b.st, dd_not(L.cond), [e for e in b.ev if e is not L])):
        s = Step()
        s.o, s.name, s.before, s.after, s.ev = b, nm, L.head, after, ev
        s.c = dd_and(c, d)
        s.L = L
        out.append(s)
    for s in out:
        o, I = s.o, s.o.I
        s.n0 = V(I.load(s.before, o.C + ("$n",), "u")) if s.before else V(0)
        s.h0 = V(I.load(s.before, o.C + ("$h",), "i")) if s.before else V(0)
        s.n1, s.h1 = V(I.load(s.after, o.C + ("$n",), "u")), V(I.load(s.after, o.C + ("$h",), "i"))
        if s.before:
            s.back0 = cells(I, s.before, o.C, (s.h0 + s.n0 - 1).d)
            s.front0 = cells(I, s.before, o.C, s.h0.d)
            s.later = V(o.adj.d) - V(s.back0["timestamp_sec"])
            # ticks come in order of time, the window is aligned
            s.c = dd_and(s.c, (s.later >= 0).d)
        s.back1 = cells(I, s.after, o.C, (s.h1 + s.n1 - 1).d)
        # set callbacks are called
        for e in s.ev:
            s.c = dd_and(s.c, atom_nz(e.res)) if e.res is not None else s.c
    return out


def want_back(s):
    """Cases (name, condition, expected newest tick, is it an added tick)."""
    o = s.o
    new = {f: tk("tick", f).d for f in OHLCV}
    new["timestamp_sec"] = o.adj.d
    if s.name == "first":
        return [("first", TRUE, new, True)]
    b = {f: V(x) for f, x in s.back0.items()}
    if s.name == "fill":
        fill = {f: b["close"].d for f in OHLCV[:4]}
        fill["volume"] = ZERO
        fill["timestamp_sec"] = (b["timestamp_sec"] + o.P).d
        return [("fill", TRUE, fill, True)]
    t = {f: tk("tick", f) for f in OHLCV}
    merged = {"timestamp_sec": b["timestamp_sec"].d, "open": b["open"].d, "high": vmax(b["high"], t["high"]).d, "low": vmin(b["low"], t["low"]).d,
              "close": t["close"].d, "volume": (b["volume"] + t["volume"]).d}
    return [("merge", s.later.eq(0).d, merged, False), ("append", (s.later > 0).d, new, True)]


def i01(ctx):
    R = "window"
    ctx.rule(R, "in every transition of a window that holds at least one tick (a turn of the backfill loop, the final step) and in the first update: timestamps are aligned to "
                "the period; the backfill runs exactly while the newest tick ends before the new one's period and appends a flat zero-volume tick at the previous close one "
                "period later; the final step merges into or appends to the newest tick; additions beyond N drop exactly the oldest tick; no other tick changes")
    ss = steps(ctx, R)
    for s in ss or ():
        o, I, w = s.o, s.o.I, s.o.where
        if s.name == "fill":
            want = (s.later > o.P).d
            dom = ((o.N >= 1) & (o.P >= 1) & (s.n0 >= 1) & (s.n0 <= o.N) & (s.later >= 0)).d
            d = differ(s.L.cond, want, dom)
            ctx.check(R, "fill/when", w, d is FALSE, "the backfill does not run exactly while a period without ticks is left: %s" % short(witness(d)))
        for nm, c, want, added in want_back(s):
            c = dd_and(s.c, c)
            if c is FALSE:
                ctx.undec(R, nm, w, "case never arises")
                continue
            x = same(s.back1, want, c)
            ctx.check(R, nm + "/newest", w, x is None, "%s of the newest tick is not what the update requires: %s" % (x or ("", "")))
            if added:
                full = s.n0 >= o.N
                d = dd_or(differ(s.n1.d, ite(full, s.n0, s.n0 + 1).d, c), differ(s.h1.d, ite(full, s.h0 + 1, s.h0).d, c))
                ctx.check(R, nm + "/size", w, d is FALSE, "after an addition the window is not the last N ticks: %s" % short(witness(d)))
            else:
                d = dd_or(differ(s.n1.d, s.n0.d, c), differ(s.h1.d, s.h0.d, c))
                ctx.check(R, nm + "/size", w, d is FALSE, "merging changes the number of ticks: %s" % short(witness(d)))
            if not s.before:
                continue
            # the other ticks
            ix = {loc[2] for loc in s.after.mem if loc[:1] == o.C[:1] and loc[:2] == o.C and len(loc) > 3 and loc[2] == "[]"}
            ix = {loc[len(o.C) + 1] for loc in s.after.mem if loc[:len(o.C)] == o.C and len(loc) > len(o.C) + 1 and loc[len(o.C)] == "[]"}
            newest, last = (s.h0 + s.n0).d, (s.h0 + s.n0 - 1).d
            for j in ix:
                if j is newest or (j is last and not added):
                    continue
                x = same(cells(I, s.after, o.C, j), cells(I, s.before, o.C, j), c)
                ctx.check(R, nm + "/others", w, x is None, "a tick other than the newest changes: %s, %s" % (x or ("", "")))


def i02(ctx):
    R = "notify"
    ctx.rule(R, "in the same transitions: exactly one registered callback is called; a merge reports the tick before and after it, an addition reports the added tick, and with "
                "a full window also the dropped tick; the window already has its new content when the callback runs; each Register method sets the callback it names")
    ss = steps(ctx, R)
    for s in ss or ():
        o, I, w = s.o, s.o.I, s.o.where
        if any(e.kind != "callback" for e in s.ev):
            ctx.undec(R, s.name, w, "events other than callbacks: " + ", ".join(sorted({str(e.name) for e in s.ev if e.kind != "callback"})))
            continue
        by = {k: [] for k in CB}
        for e in s.ev:
            r = ld_of(e.res) if isinstance(e.res, T) else None
            if r is None or r[0][:1] != ("P",) or r[0][2] not in by:
                ctx.undec(R, s.name, w, "the callback that is called: %s" % show(e.res) if isinstance(e.res, T) else "?")
                break
            by[r[0][2]].append(e)
        else:
            for nm, c, want, added in want_back(s):
                c = dd_and(s.c, c)
                if c is FALSE:
                    continue
                full = (s.n0 >= o.N).d
                for k in CB:
                    when = dd_and(c, FALSE if (k == "updated") == added else TRUE if not added else full if k == "shifted" else dd_not(full))
                    called, twice = FALSE, FALSE
                    for e in by[k]:
                        twice = dd_or(twice, dd_and(called, e.pc))
                        called = dd_or(called, e.pc)
                    d = prune(dd_or(dd_and(dd_and(c, called), dd_not(when)), dd_and(when, dd_not(called))))
                    ctx.check(R, "%s/%s" % (nm, k), w, d is FALSE, "the '%s' callback is not called in exactly its case: %s" % (k, short(witness(d))))
                    d = prune(dd_and(c, twice))
                    ctx.check(R, "%s/%s/once" % (nm, k), w, d is FALSE, "the '%s' callback is called twice: %s" % (k, short(witness(d))))
                    for e in by[k]:
                        p = dd_and(e.pc, when)
                        if p is FALSE:
                            continue
                        exp = {"updated": [s.back0 if s.before else None, want], "added": [want],
                               "shifted": [s.front0 if s.before else None, want]}[k]
                        for i, (a, x) in enumerate(zip(e.args, exp)):
                            if x is None:
                                continue
                            if s.before is not None and k == "shifted" and i == 0:
                                # a window of one tick drops the tick the new one follows
                                x = {f: x[f] for f in x}
                            y = same(pointed(I, e.st, a), x, p)
                            ctx.check(R, "%s/%s/arg%d" % (nm, k, i), e.where, y is None, "the '%s' callback gets a tick with another %s: %s" % ((k,) + (y or ("", ""))))
                        n, h = V(I.load(e.st, o.C + ("$n",), "u")), V(I.load(e.st, o.C + ("$h",), "i"))
                        d = dd_or(differ(n.d, s.n1.d, p), differ(h.d, s.h1.d, p))
                        y = same(cells(I, e.st, o.C, (h + n - 1).d), want, p)
                        ctx.check(R, "%s/%s/settled" % (nm, k), e.where, d is FALSE and y is None, "the callback runs before the window has its new content")


# ---------------------------------------------------------------- composites
SW, EH = "trader::SlidingWindowMeanAndVariance", "trader::ExponentialMovingAverageHelper"
MN, MX = "trader::SlidingWindowMinimum", "trader::SlidingWindowMaximum"


class Ind(Obj):
    """An indicator over a tick window: its constructor registers what happens when the window changes; the
    changes are then played in the order in which the window reports them (decided by I01 and I02)."""

    def __init__(self, ctx, cls, args, opaque=()):
        Obj.__init__(self, ctx, cls, args, opaque=tuple(opaque) + (LN + "::Update",))
        self.win = (THIS, one_field(ctx, cls, lambda t: t == LN, LN))
        self.dq = self.win + (one_field(ctx, LN, lambda t: t.startswith("std::deque<"), "std::deque"),)
        # the window's own members: which hold N, the period and the callbacks
        p = Obj(ctx, LN, [mkT("N", isint=True), mkT("P", isint=True)])
        who = {}
        for loc, v in p.st.mem.items():
            if loc[:1] == (THIS,) and isinstance(v, T) and v.op in ("N", "P"):
                who[v.op] = loc[1:]
        for i, (k, m) in enumerate(sorted(CB.items())):
            p.call(m, interp.ptr((("P", 60 + i, k),)))
        for f in fields(ctx, LN, lambda t: "function<" in t):
            v = p.I.load(p.st, (THIS, f, "$fn"), "p")
            r = ld_of(v) if isinstance(v, T) else None
            if r and r[0][:1] == ("P",):
                who[r[0][2]] = (f,)
        if not all(k in who for k in ("N", "P") + tuple(CB)):
            raise AnalysisLimit("members of %s: found %s" % (LN, sorted(who)))
        self.who = who
        self.N = self.I.load(self.st, self.win + who["N"], "i")
        self.P = self.I.load(self.st, self.win + who["P"], "i")
        self.n = 0
        self.more = ()
        self.forwards = True

    def content(self, st, *names):
        """The window's content, oldest first."""
        I = self.I
        I.clear(st, self.dq)
        I.store(st, self.dq + ("$n",), num(len(names)), "u")
        I.store(st, self.dq + ("$h",), ZERO, "i")
        for i, nm in enumerate(names):
            I.copy_obj(st, (("P", 50, nm),), self.dq + ("[]", num(i)))

    def size(self, n):
        self.I.clear(self.st, self.dq)
        self.I.store(self.st, self.dq + ("$n",), V(n).d, "u")

    def fire(self, k, *names, window=None):
        """Update with some tick; the window reports a change while it takes it in."""
        I = self.I
        self.n += 1
        t = "tick%d" % self.n

        def play(st, e, obj):
            if window:
                self.content(st, *window)
            I.call_closure_at(st, interp.ptr(self.win + self.who[k]), [tick_ptr(x) for x in names], None, {"k": "fire", "l": 0, "t": "void"})
        I.stand_in = {LN + "::Update": play}
        self.events()
        try:
            self.call("Update", tick_ptr(t), *self.more)
        finally:
            I.stand_in = {}
        ev = self.events()
        mine = lambda e: not isinstance(e, interp.Loop) and e.kind == "call" and e.name == LN + "::Update"
        fw = [e for e in ev if mine(e)]
        self.forwards = self.forwards and len(fw) == 1 and implies(self.st.pc, fw[0].pc)[0] \
            and bool(fw[0].args) and fw[0].args[0] is tick_ptr(t) and fw[0].obj is interp.ptr(self.win)
        self.fired = [e for e in ev if not mine(e)]
        if any(not isinstance(e, interp.Loop) and e.kind == "emptycall" for e in self.fired):
            self.unset = k

    def add(self, nm, prev=None):
        """A first tick (or one that does not displace another)."""
        self.fire("added", nm, window=([prev] if prev else []) + [nm])

    def shift(self, gone, nm, prev=None):
        self.fire("shifted", gone, nm, window=([prev] if prev else []) + [nm])

    def revise(self, nm, new, prev=None):
        self.fire("updated", nm, new, window=([prev] if prev else []) + [new])

    def get(self, name):
        self.events()
        v = self.call(name)
        return v

    def general(self, name, play):
        """A later state: what `play` changes (beyond the constructor) becomes unknown; the integers that count the
        ticks in step with it become the same unknown number. play(i) adds the i-th tick."""
        st, I = self.st, self.I
        base = st.clone()
        vals = []
        for i in range(3):
            play(i)
            vals.append({k: v for k, v in st.mem.items() if k[:1] == (THIS,) and k[:len(self.win)] != self.win})
        st.take(base)
        self.events()
        self.k = mkT(name, isint=True, nn=True)
        for loc, v in vals[-1].items():
            if base.mem.get(loc) is v and all(x.get(loc) is v for x in vals):
                continue
            kd = I.kinds.get(loc, "?")
            if kd not in "iuf" or any(isinstance(x, str) and x.startswith("$") for x in loc[1:]):
                return "state kept in %s" % ".".join(str(x) for x in loc[1:])
            if kd in "iu" and [x.get(loc) for x in vals] == [num(1), num(2), num(3)] and single(I.load(base, loc, kd)) is ZERO:
                I.store(st, loc, self.k, kd)
            else:
                I.store(st, loc, leaf(THIS, *loc[1:], isint=kd in "iu"), kd)
        return None


def arg(name, **kw):
    return mkT(name, **kw)


def params(ctx, cls, names):
    """Symbolic constructor arguments; the ones named in upper case are lengths (at least one)."""
    return [arg(n, isint=n.isupper(), nn=n.isupper()) for n in names]


def odd(*vs):
    """A value the analysis does not express in closed form."""
    for v in vs:
        for t in term_subterms(v.d):
            if t.op in ("mu", "kappa", "unk", "ev", "uninit"):
                return t
    return None


class Law:
    """Checks values of one indicator against the values its definition requires."""

    def __init__(self, ctx, R, o, dom=TRUE):
        self.ctx, self.R, self.o, self.dom = ctx, R, o, dom
        self.nm = o.cls.split("::")[-1]
        self.pending = []

    def check(self, inst, where, cond, detail=""):
        self.pending.append(("%s/%s" % (self.nm, inst), where, cond, detail))

    def is_(self, inst, got, want, what, dom=TRUE):
        o, ctx = self.o, self.ctx
        if got is None or odd(got):
            return ctx.undec(self.R, "%s/%s" % (self.nm, inst), o.where, "value %s" % (short(showdd(got.d, 2), 160) if got is not None else None))
        d = rat_differ(got.d, V(want).d, dd_and(self.dom, dom))
        self.check(inst, o.where, d is FALSE, "%s: got %s, not %s, when %s" % (
            what, short(showdd(got.d, 2), 120), short(showdd(V(want).d, 2), 120), short(witness(d), 120)))

    def wired(self, N, P=None):
        """The window has the right length and period."""
        o, ctx = self.o, self.ctx
        if odd(V(o.N), V(o.P)):
            return ctx.undec(self.R, self.nm + "/window", o.f.where, "window length or period")
        self.check("window", o.f.where, o.N is V(N).d, "the window holds %s ticks" % showdd(o.N, 2))
        if P is not None:
            self.check("period", o.f.where, o.P is V(P).d, "the window's period is %s" % showdd(o.P, 2))

    def done(self):
        """Results count only if everything on the way was understood."""
        o, ctx = self.o, self.ctx
        g = o.gaps
        if g:
            ctx.undec(self.R, self.nm, o.f.where, g[0])
        else:
            if isinstance(o, Ind):
                self.check("forwards", ctx.fn(o.cls + "::Update", 0).where, o.forwards, "Update does not pass its tick to the window exactly once")
            for x in self.pending:
                ctx.check(self.R, *x)
        self.pending = []
        return not g


def i03(ctx):
    R = "averages"
    ctx.rule(R, "simple moving average: the mean of one tick is its close; adding, replacing or revising a tick changes mean * count by the difference of the closes; exponential "
                "moving average: the first close, then weight * close + (1 - weight) * previous average with weight smoothing / (1 + length); revising the newest tick gives the "
                "value of having added the revised tick; counts; window length and period")
    # simple
    cls, get, cnt = "trader::SimpleMovingAverage", "GetSimpleMovingAverage", "GetNumOhlcTicks"
    n, p = params(ctx, cls, ["N", "P"])
    o = Ind(ctx, cls, [n, p])
    L = Law(ctx, R, o)
    L.wired(n, p)
    o.content(o.st)
    L.is_("none", o.get(get), 0, "the average of no tick")
    o.add("x")
    L.is_("first", o.get(get), tk("x"), "the average of one tick")
    L.is_("first/count", o.get(cnt), 1, "the number of ticks")
    o.revise("x", "y")
    L.is_("first/revised", o.get(get), tk("y"), "the average of one revised tick")
    o = Ind(ctx, cls, [n, p])
    L.o = o
    why = o.general("k", lambda i: o.add("t%d" % i))
    m = V(leaf(("P", 70, "count"), "n", isint=True, nn=True))
    if why:
        ctx.undec(R, L.nm + "/step", o.f.where, why)
    else:
        dom = (m >= 1).d
        st = o.st.clone()
        for nm, m1, call, delta in (("added", m + 1, lambda: o.fire("added", "x"), tk("x")),
                                    ("replaced", m, lambda: o.fire("shifted", "g", "x"), tk("x") - tk("g")),
                                    ("revised", m, lambda: o.fire("updated", "x", "y"), tk("y") - tk("x"))):
            o.st.take(st.clone())
            o.size(m)
            g0 = o.get(get)
            o.size(m1)
            call()
            L.is_(nm, o.get(get) * m1, g0 * m + delta, "count * average after a tick is " + nm, dom)
            L.is_(nm + "/count", o.get(cnt), m1, "the number of ticks", dom)
    L.done()
    # exponential
    cls, get = "trader::ExponentialMovingAverage", "GetExponentialMovingAverage"
    a, n, p = params(ctx, cls, ["smoothing", "L", "P"])
    o = Ind(ctx, cls, [a, n, p])
    L = Law(ctx, R, o)
    L.wired(1, p)
    w = V(a) / (V(n) + 1)
    ema_laws(L, lambda: Ind(ctx, cls, [a, n, p]), get, cnt, w, lambda nm: tk(nm))


def ema_laws(L, make, get, cnt, w, val, count=True):
    """First value, recurrence, and revision of an exponential average over a one-tick window."""
    ctx, R = L.ctx, L.R
    o = L.o = make()
    o.add("x")
    L.is_("first", o.get(get), val("x"), "the first average")
    if cnt:
        L.is_("first/count", o.get(cnt), 1, "the number of ticks")
    o.revise("x", "y")
    L.is_("first/revised", o.get(get), val("y"), "the first average after a revision")
    o.shift("y", "z")
    L.is_("second", o.get(get), w * val("z") + (1 - w) * val("y"), "the second average")
    o.revise("z", "q")
    L.is_("second/revised", o.get(get), w * val("q") + (1 - w) * val("y"), "the second average after a revision")
    L.done()
    o = L.o = make()
    why = o.general("k", lambda i: o.add("t0") if i == 0 else o.shift("t%d" % (i - 1), "t%d" % i))
    if why:
        return ctx.undec(R, L.nm + "/step", o.f.where, why)
    dom = (V(o.k) >= 1).d
    g = o.get(get)
    o.shift("g", "x")
    e = w * val("x") + (1 - w) * g
    L.is_("later", o.get(get), e, "a later average", dom)
    if cnt:
        L.is_("later/count", o.get(cnt), V(o.k) + 1, "the number of ticks", dom)
    o.revise("x", "y")
    e = w * val("y") + (1 - w) * g
    L.is_("later/revised", o.get(get), e, "a later average after a revision", dom)
    o.revise("y", "z")
    e = w * val("z") + (1 - w) * g
    L.is_("later/revised-again", o.get(get), e, "a later average after two revisions", dom)
    if cnt:
        L.is_("later/revised/count", o.get(cnt), V(o.k) + 1, "the number of ticks", dom)
    o.shift("z", "q")
    L.is_("later/next", o.get(get), w * val("q") + (1 - w) * e, "the average after the next tick", dom)
    L.done()


# ---------------------------------------------------------------- I04: mean and variance of a sliding window
def i04(ctx):
    R = "mean-variance"
    sizes, length = (9, 14) if ctx.tier == "thorough" else (5, 7)
    ctx.rule(R, "for window sizes 0 (unbounded) to %d and %d values with revisions in between: the mean and the variance are those of the last min(count, size) values, the "
                "variance is never below 0, the standard deviation is its root, and the sizes and counts are right; for any larger size: adding a value changes sum and sum of "
                "squares by the new value, less the oldest one once the window is full" % (sizes - 1, length))
    v = [V(arg("v%d" % i)) for i in range(2 * length)]

    def state(L, inst, xs, W, total):
        o = L.o
        w = xs if W == 0 else xs[-W:]
        n = len(w)
        m = sum(w[1:], w[0]) / n if n else V(0)
        L.is_(inst + "/mean", o.call("GetMean"), m, "mean")
        L.is_(inst + "/size", o.call("GetWindowSize"), n, "window size")
        L.is_(inst + "/count", o.call("GetNumValues"), total, "number of values")
        if n:
            sq = [x * x for x in w]
            var = sum(sq[1:], sq[0]) / n - m * m
        else:
            var = V(0)
        pos = vmax(V(0), var)
        g = o.call("GetVariance")
        L.is_(inst + "/variance", g, pos, "variance")
        r = o.call("GetStandardDeviation")
        L.is_(inst + "/deviation", r, V(dd_apply(lambda t: t_fun("sqrt", t), g.d)), "standard deviation")

    for W in range(sizes):
        o = Obj(ctx, SW, [num(W)])
        L = Law(ctx, R, o)
        L.nm = "size-%d" % W
        state(L, "empty", [], W, 0)
        xs, j = [], 0
        for i in range(length):
            o.call("AddNewValue", v[j])
            xs.append(v[j])
            j += 1
            if i % 2 == 0:
                state(L, "add-%d" % (i + 1), xs, W, i + 1)
            if i % 3 == 2 or i == 1:
                o.call("UpdateCurrentValue", v[j])
                xs[-1] = v[j]
                j += 1
                state(L, "revise-%d" % (i + 1), xs, W, i + 1)
        L.done()
    # any larger window
    C = (THIS, one_field(ctx, SW, lambda t: t.startswith("std::deque<"), "std::deque"))
    W = arg("W", isint=True, nn=True)
    k = V(leaf(("P", 70, "count"), "k", isint=True, nn=True))
    names = {}
    o = Obj(ctx, SW, [W])
    for i in range(3):
        o.call("AddNewValue", v[i])
        for loc, x in o.st.mem.items():
            if loc[:1] == (THIS,) and loc[1:2] != C[1:2]:
                names.setdefault(loc, []).append(x)
    counter = [loc for loc, x in names.items() if len(x) == 3 and all(y is num(i + 1) for i, y in enumerate(x))]
    for zero in (False, True):
        o = Obj(ctx, SW, [ZERO if zero else W])
        L = Law(ctx, R, o)
        L.nm = "unbounded" if zero else "size-W"
        for loc in names:
            if loc not in counter and not (len(set(names[loc])) == 1 and len(names[loc]) == 3):
                o.I.store(o.st, loc, leaf(THIS, *loc[1:]), "f")
        for loc in counter:
            o.I.store(o.st, loc, k.d, "i")
        if not zero:
            o.I.clear(o.st, C)
            o.I.store(o.st, C + ("$n",), (vmin(k, V(W)) - 1).d, "u")
            o.I.store(o.st, C + ("$h",), ZERO, "i")
        full = k >= V(W)
        dom = (k >= 1).d if zero else ((k >= 1) & (V(W) >= 2)).d
        m0, s0, q0 = o.call("GetMean"), o.call("GetWindowSize"), o.call("GetVariance")
        old = V(0) if zero else ite(full, V(o.I.load(o.st, C + ("[]", ZERO), "f")), V(0))
        x = V(arg("x"))
        o.call("AddNewValue", x)
        m1, s1 = o.call("GetMean"), o.call("GetWindowSize")
        L.is_("size", s1, k + 1 if zero else vmin(k + 1, V(W)), "window size", dom)
        L.is_("count", o.call("GetNumValues"), k + 1, "number of values", dom)
        L.is_("sum", m1 * s1, m0 * s0 + x - old, "size * mean", dom if zero else dd_and(dom, (V(W) >= 3).d))
        q1 = o.call("GetVariance")
        pos = ((q0 > 0) & (q1 > 0)).d
        L.is_("squares", (q1 + m1 * m1) * s1, (q0 + m0 * m0) * s0 + x * x - old * old, "size * (variance + mean^2)",
              dd_and(pos, dom if zero else dd_and(dom, (V(W) >= 3).d)))
        L.done()


# ---------------------------------------------------------------- I05: minimum and maximum of a sliding window
def i05(ctx):
    R = "extremes"
    ctx.rule(R, "the sliding minimum of one and two values with revisions, for every window size; for any later state: values are discarded from the back only if they are at least "
                "as large as the value that is kept, and from the front exactly if they have left the window; the result is the smaller of the oldest kept and the newest value; "
                "the sliding maximum is the negated minimum of the negated values")
    x, y, z, q = (V(arg(n)) for n in "xyzq")
    W = arg("W", isint=True, nn=True)
    for cls, get, pick in ((MN, "GetSlidingWindowMinimum", vmin), (MX, "GetSlidingWindowMaximum", vmax)):
        mk_ = lambda: Obj(ctx, cls, [W], dom=(V(W) >= 1).d)
        for nm, ops in (("plain", "x"), ("revised", "xz"), ("revised-twice", "xzq")):
            o = mk_()
            L = Law(ctx, R, o, (V(W) >= 1).d)
            cur = None
            for c in ops:
                cur = {"x": x, "z": z, "q": q}[c]
                o.call("AddNewValue" if c == "x" else "UpdateCurrentValue", cur)
                L.is_("%s/one-%s" % (nm, c), o.call(get), cur, "the extreme of one value")
            L.is_(nm + "/one/size", o.call("GetWindowSize"), 1, "window size")
            o.call("AddNewValue", y)
            L.is_(nm + "/two", o.call(get), ite(V(W).eq(1), y, pick(cur, y)), "the extreme of two values")
            L.is_(nm + "/two/size", o.call("GetWindowSize"), vmin(V(2), V(W)), "window size")
            L.is_(nm + "/two/count", o.call("GetNumValues"), 2, "number of values")
            v = V(arg("r"))
            o.call("UpdateCurrentValue", v)
            L.is_(nm + "/two-revised", o.call(get), ite(V(W).eq(1), v, pick(cur, v)), "the extreme of two values after a revision")
            L.done()
    queue(ctx, R, W)
    R = "maximum"
    ctx.rule(R, "every operation of the sliding maximum is one operation of a sliding minimum on the negated value")
    ops = {m: MN + "::" + m for m in ("AddNewValue", "UpdateCurrentValue", "GetSlidingWindowMinimum")}
    o = Obj(ctx, MX, [W], opaque=tuple(ops.values()))
    if len(fields(ctx, MX, lambda t: t == MN)) != 1:
        ctx.undec(R, "member", o.f.where, "the sliding maximum does not hold one sliding minimum")
        return
    for m in ("AddNewValue", "UpdateCurrentValue"):
        o.events()
        o.call(m, x)
        ev = o.events()
        if o.gaps or any(isinstance(e, interp.Loop) for e in ev):
            ctx.undec(R, m, o.where, "not understood")
            continue
        ok = len(ev) == 1 and ev[0].name == ops[m] and ev[0].pc is TRUE and ev[0].args[0] is (V(0) - x).d
        ctx.check(R, m, o.where, ok, "%s is not %s of the negated value" % (m, ops[m]))


def queue(ctx, R, W):
    """The monotone queue of SlidingWindowMinimum from any later state."""
    nm = "SlidingWindowMinimum/later"
    f = one_field(ctx, MN, lambda t: t.startswith("std::deque<"), "std::deque")
    C = (THIS, f)
    o = Obj(ctx, MN, [W])
    vals = []
    xs = [arg("x%d" % i) for i in range(3)]
    base = o.st.clone()
    o.call("AddNewValue", xs[0])
    one = {k: v for k, v in o.st.mem.items() if k[:1] == (THIS,)}
    o.call("UpdateCurrentValue", xs[1])
    two = {k: v for k, v in o.st.mem.items() if k[:1] == (THIS,)}
    cur = [k for k in two if two[k] is xs[1]]
    counters = [k for k in one if one[k] is num(1) and two.get(k) is num(1) and o.I.kinds.get(k) in ("i", "u") and base.mem.get(k) in (ZERO, None) and k[:2] != C]
    k = V(leaf(("P", 70, "count"), "k", isint=True, nn=True))
    st = o.st
    for loc in two:
        if loc[:2] == C:
            continue
        if loc in counters:
            o.I.store(st, loc, k.d, o.I.kinds[loc])
        elif two[loc] is not one.get(loc) or two[loc] is not base.mem.get(loc):
            o.I.store(st, loc, leaf(THIS, *loc[1:]), "f")
    o.I.clear(st, C)
    st.aggs.pop(C, None)
    before = {loc: o.I.load(st, loc, "f") for loc in cur}
    o.events()
    v = arg("v")
    o.call("AddNewValue", v)
    ev = o.events()
    dom = ((k >= 1) & (V(W) >= 2)).d
    w = o.where
    I = o.I
    if o.gaps:
        return ctx.undec(R, nm, w, o.gaps[0])
    no, ho = C + ("$n",), C + ("$h",)
    back, front = [], []
    for L in [e for e in ev if isinstance(e, interp.Loop)]:
        if L.back.pc is FALSE or no not in L.mods or [b for b in L.breaks if b.pc is not FALSE] or list(loops_of(L.ev)):
            return ctx.undec(R, nm, w, "a loop that does not only discard values")
        n0, n1 = V(I.load(L.head, no, "u")), V(I.load(L.back, no, "u"))
        h0, h1 = V(I.load(L.head, ho, "i")), V(I.load(L.back, ho, "i"))
        if differ(n1.d, (n0 - 1).d, L.back.pc) is not FALSE:
            return ctx.undec(R, nm, w, "a loop that does not discard one value per turn")
        if differ(h1.d, h0.d, L.back.pc) is FALSE:
            back.append(L)
        elif differ(h1.d, (h0 + 1).d, L.back.pc) is FALSE:
            front.append(L)
        else:
            return ctx.undec(R, nm, w, "a loop over the queue")
    # the value that is put into the queue, and the number it is filed under
    js = {loc[len(C) + 1] for loc in o.st.mem if loc[:2] == C and len(loc) > len(C) + 1 and loc[len(C)] == "[]"}
    if len(js) != 1 or len(back) != 1 or len(front) > 1:
        return ctx.undec(R, nm, w, "%d values put into the queue, %d and %d loops that discard" % (len(js), len(back), len(front)))
    j = js.pop()
    kept, no_ = I.load(o.st, C + ("[]", j, "first"), "f"), I.load(o.st, C + ("[]", j, "second"), "i")
    kept, no_ = under(kept, dom), under(no_, dom)
    good = len(cur) >= 1 and any(differ(kept, b, dom) is FALSE for b in before.values())
    ctx.check(R, nm + "/kept", w, good, "the value put into the queue is %s, not the newest one" % short(showdd(kept, 2)))
    c = dd_apply(lambda t: t_sub(t, k.d), no_)
    c = single(c)
    if c is None or not is_num(c):
        return ctx.undec(R, nm + "/number", w, "filed under %s" % short(showdd(no_, 2)))
    L = back[0]
    n = V(I.load(L.head, no, "u"))
    h = V(I.load(L.head, ho, "i"))
    b = V(elem(I, L.head, C, (h + n - 1).d, "first"))
    d0 = dd_and(dd_and(dom, L.pc), (n >= 0).d)
    ok, x = implies(L.cond, ((n >= 1) & (b >= V(kept))).d, d0)
    ctx.check(R, nm + "/back/only", L.where, ok, "a value is discarded that may still become the minimum: %s" % short(witness(x)))
    ok, x = implies(dd_not(L.cond), ((n < 1) | (b <= V(kept))).d, d0)
    ctx.check(R, nm + "/back/all", L.where, ok, "a larger value stays behind the newer one: %s" % short(witness(x)))
    # value number i is in the window of the new value (number k + 1) iff k + 1 - i < W
    if front:
        L = front[0]
        n, h = V(I.load(L.head, no, "u")), V(I.load(L.head, ho, "i"))
        s = V(elem(I, L.head, C, h.d, "second", "i"))
        cond, d0, at = L.cond, dd_and(dd_and(dom, L.pc), (n >= 1).d), L.where
    else:
        # at most one value leaves the window per turn, so that one test is as good as a loop
        h1 = under(I.load(o.st, ho, "i"), dom)
        hs = [x for l, x in cubes_of(h1)]
        low = [x for x in hs if all(t_sub(y, x) in (ZERO, ONE) for y in hs)]
        if not low:
            return ctx.undec(R, nm, w, "how values that leave the window are discarded")
        h, at = V(low[0]), w
        s = V(elem(I, o.st, C, h.d, "second", "i"))
        cond, d0 = dd_apply(lambda t: TRUE if t is not low[0] else FALSE, h1), dom
    gone = (k + V(c) + 1 - s >= V(W))
    d = differ(cond, gone.d, d0)
    ctx.check(R, nm + "/front", at, d is FALSE, "values are not discarded exactly when they leave the window: %s" % short(witness(d)))
    # the result
    n, h = V(I.load(o.st, no, "u")), V(I.load(o.st, ho, "i"))
    f0 = V(elem(I, o.st, C, h.d, "first"))
    L = Law(ctx, R, o, dom)
    for inst, val in (("result", V(v)), ("result-revised", V(arg("u")))):
        if inst != "result":
            o.call("UpdateCurrentValue", val)
            n1, h1 = V(I.load(o.st, no, "u")), V(I.load(o.st, ho, "i"))
            d = dd_or(differ(n1.d, n.d, dom), differ(h1.d, h.d, dom))
            ctx.check(R, nm + "/" + inst + "/queue", w, d is FALSE, "a revision changes the queue")
        got = V(under(o.call("GetSlidingWindowMinimum").d, dom))
        d = differ(got.d, ite(n < 1, val, vmin(f0, val)).d, dd_and(dom, (n >= 0).d))
        ctx.check(R, nm + "/" + inst, w, d is FALSE, "the minimum is not the smaller of the oldest kept and the newest value: %s" % short(witness(d)))


# ---------------------------------------------------------------- I06: relative strength
def change(a, b):
    """(upward, downward) change from a to b."""
    return vmax(b - a, V(0)), vmax(a - b, V(0))


def i06(ctx):
    R = "rsi"
    ctx.rule(R, "upward and downward change are those from the previous close (from the open of the first tick), averaged with weight 1 / min(count, N), the first taken as it is; "
                "revisions of the newest tick leave no trace; the index is 100 - 100 / (1 + U / D), 50 if neither changes and 100 if nothing falls")
    cls = "trader::RelativeStrengthIndex"
    n, p = params(ctx, cls, ["N", "P"])
    UD = ("GetUpwardChangeModifiedMovingAverage", "GetDownwardChangeModifiedMovingAverage")
    get, cnt = "GetRelativeStrengthIndex", "GetNumOhlcTicks"
    dom = (V(n) >= 1).d
    mk_ = lambda: Ind(ctx, cls, [n, p])
    wt = lambda k: 1 / vmin(V(k), V(n))
    o = mk_()
    L = Law(ctx, R, o, dom)
    L.wired(2, p)

    def both(inst, want, what, d=TRUE):
        for g, x, s in zip(UD, want, ("up", "down")):
            L.is_("%s/%s" % (inst, s), o.get(g), x, "the average %sward change %s" % (s, what), d)

    def mix(w, new, old):
        return [w * a + (1 - w) * b for a, b in zip(new, old)]

    o.add("x")
    e1 = change(tk("x", "open"), tk("x"))
    both("first", e1, "of the first tick")
    L.is_("first/count", o.get(cnt), 1, "the number of ticks")
    o.revise("x", "y")
    e1 = change(tk("y", "open"), tk("y"))
    both("first/revised", e1, "of the revised first tick")
    o.add("z", prev="y")
    both("second", mix(wt(2), change(tk("y"), tk("z")), e1), "after two ticks")
    L.is_("second/count", o.get(cnt), 2, "the number of ticks")
    o.revise("z", "q", prev="y")
    both("second/revised", mix(wt(2), change(tk("y"), tk("q")), e1), "after two ticks and a revision")
    L.done()
    o = L.o = mk_()
    why = o.general("k", lambda i: o.add("t0") if i == 0 else o.add("t1", prev="t0") if i == 1 else o.shift("t%d" % (i - 2), "t%d" % i, prev="t%d" % (i - 1)))
    if why:
        ctx.undec(R, L.nm + "/step", o.f.where, why)
    else:
        k = V(o.k)
        d = (k >= 2).d
        g = [o.get(x) for x in UD]
        # the value, for averages that are not negative
        u, w = g
        r = o.get(get)
        tiny = V(num(Fraction("1e-6")))
        flat = (u < tiny) & (w < tiny)
        want = ite(flat, V(100) / 2, ite(w < u * tiny, V(100), 100 - 100 / (1 + u / w)))
        L.is_("value", r, want, "the index", dd_and(d, ((u >= 0) & (w >= 0)).d))
        o.shift("g", "x", prev="p")
        e = mix(wt(k + 1), change(tk("p"), tk("x")), g)
        both("later", e, "after another tick", d)
        L.is_("later/count", o.get(cnt), k + 1, "the number of ticks", d)
        o.revise("x", "y", prev="p")
        e = mix(wt(k + 1), change(tk("p"), tk("y")), g)
        both("later/revised", e, "after another tick and a revision", d)
        L.is_("later/revised/count", o.get(cnt), k + 1, "the number of ticks", d)
        o.shift("p", "z", prev="y")
        both("later/next", mix(wt(k + 2), change(tk("y"), tk("z")), e), "after two more ticks", d)
    L.done()


# ---------------------------------------------------------------- I07: stochastic oscillator
def i07(ctx):
    R = "stochastic"
    ctx.rule(R, "low and high are the sliding minimum of the lows and maximum of the highs over N ticks; %K is 100 * (close - low) / (high - low), 50 if they coincide; %D-fast is "
                "the sliding mean of three %K, %D-slow the sliding mean of three %D-fast; every operation on a tick is the same operation on each of them")
    cls = "trader::StochasticOscillator"
    n, p = params(ctx, cls, ["N", "P"])
    dom = (V(n) >= 1).d
    tiny = V(num(Fraction("1e-6")))

    def K(c, lo, hi):
        return ite(hi - lo < tiny, V(50), 100 * (c - lo) / (hi - lo))
    o = Ind(ctx, cls, [n, p])
    o.st.pc = dom
    L = Law(ctx, R, o, dom)
    L.wired(1, p)
    low, high = (lambda t: tk(t, "low")), (lambda t: tk(t, "high"))

    def state(inst, lo, hi, c, count):
        L.is_(inst + "/low", o.get("GetLow"), lo, "the low")
        L.is_(inst + "/high", o.get("GetHigh"), hi, "the high")
        L.is_(inst + "/k", o.get("GetK"), K(c, lo, hi), "%K")
        L.is_(inst + "/count", o.get("GetNumOhlcTicks"), count, "the number of ticks")
    o.add("x")
    state("first", low("x"), high("x"), tk("x"), 1)
    o.revise("x", "y")
    state("first/revised", low("y"), high("y"), tk("y"), 1)
    one = V(n).eq(1)
    o.shift("y", "z")
    state("second", ite(one, low("z"), vmin(low("y"), low("z"))), ite(one, high("z"), vmax(high("y"), high("z"))), tk("z"), 2)
    o.revise("z", "q")
    state("second/revised", ite(one, low("q"), vmin(low("y"), low("q"))), ite(one, high("q"), vmax(high("y"), high("q"))), tk("q"), 2)
    L.done()
    # the means
    ops = {SW + "::" + m: m for m in ("AddNewValue", "UpdateCurrentValue", "GetMean")}
    kinds = fields(ctx, cls, lambda t: t == SW)
    o = L.o = Ind(ctx, cls, [n, p], opaque=tuple(ops))
    o.st.pc = dom
    d = {}
    for g in ("GetFastD", "GetSlowD"):
        o.events()
        r = o.get(g)
        ev = o.events()
        if len(ev) != 1 or isinstance(ev[0], interp.Loop) or ev[0].name != SW + "::GetMean" or ld_root(ev[0].obj) is None or odd(r) is None:
            ctx.undec(R, L.nm + "/" + g, o.where, "not the mean of a sliding window")
            return
        L.check(g, o.where, isinstance(r.d, T) and r.d.op == "ret" and ev[0].uid in r.d.args, "%s is not the mean itself" % g)
        d[g] = ld_root(ev[0].obj)
    size = Obj(ctx, SW, [arg("W", isint=True)])
    sz = [loc[1:] for loc, x in size.st.mem.items() if loc[:1] == (THIS,) and isinstance(x, T) and x.op == "W"]
    for g, loc in d.items():
        for s in sz:
            x = V(o.I.load(o.st, loc + s, "i"))
            first = Ind(ctx, cls, [n, p])
            x = V(first.I.load(first.st, loc + s, "i"))
            L.check(g + "/window", o.f.where, x.d is num(3), "%s is the mean of %s values" % (g, showdd(x.d)))
    L.check("means", o.f.where, d["GetFastD"] != d["GetSlowD"], "%D-fast and %D-slow are the same mean")
    for nm, op, ts in (("add", "AddNewValue", ("x",)), ("revise", "UpdateCurrentValue", ("x", "y")), ("replace", "AddNewValue", ("y", "z"))):
        {"add": o.add, "revise": o.revise, "replace": o.shift}[nm](*ts)
        ev = [e for e in o.fired if not isinstance(e, interp.Loop)]
        if any(isinstance(e, interp.Loop) and any(x.name in ops for x, s, q in walk(e.ev)) for e in o.fired):
            ctx.undec(R, L.nm + "/" + nm, o.f.where, "means updated in a loop")
            continue
        st = [e for e in ev if e.name in ops and ops[e.name] != "GetMean"]
        fast = [e for e in st if ld_root(e.obj) == d["GetFastD"]]
        slow = [e for e in st if ld_root(e.obj) == d["GetSlowD"]]
        good = len(fast) == len(slow) == 1 and len(st) == 2 and all(e.name == SW + "::" + op for e in st) and implies(o.st.pc, fast[0].pc)[0] and implies(o.st.pc, slow[0].pc)[0]
        L.check(nm + "/means", o.f.where, good, "a tick is not one %s on each mean" % op)
        if not good:
            continue
        k = o.get("GetK")
        L.is_(nm + "/fast", V(fast[0].args[0]), k, "the value averaged by %D-fast")
        a = single(slow[0].args[0])
        src = [e for e in ev if e.name == SW + "::GetMean" and a is not None and a.op == "ret" and e.uid in a.args]
        L.check(nm + "/slow", slow[0].where, len(src) == 1 and ld_root(src[0].obj) == d["GetFastD"] and ev.index(src[0]) > ev.index(fast[0]),
                "the value averaged by %D-slow is not the new %D-fast")
    L.done()


def ld_root(obj):
    p = single(obj) if obj is not None else None
    try:
        return interp.loc_of(p)
    except Exception:
        return None


# ---------------------------------------------------------------- I08: MACD
def i08(ctx):
    R = "macd"
    ctx.rule(R, "the fast and the slow average are exponential averages of the closes with weights 2 / (1 + length); the series is fast - slow; the signal is the exponential "
                "average of the series with weight 2 / (1 + smoothing); the divergence is series - signal; revisions of the newest tick leave no trace")
    cls = "trader::MovingAverageConvergenceDivergence"
    f, s, g, p = params(ctx, cls, ["F", "S", "G", "P"])
    mk_ = lambda: Ind(ctx, cls, [f, s, g, p])
    wf, ws, wg = (V(2) / (V(x) + 1) for x in (f, s, g))
    o = mk_()
    L = Law(ctx, R, o)
    L.wired(1, p)

    def state(inst, fa, sl, si, count, d=TRUE):
        L.is_(inst + "/fast", o.get("GetFastExponentialMovingAverage"), fa, "the fast average", d)
        L.is_(inst + "/slow", o.get("GetSlowExponentialMovingAverage"), sl, "the slow average", d)
        L.is_(inst + "/series", o.get("GetMACDSeries"), fa - sl, "the series", d)
        L.is_(inst + "/signal", o.get("GetMACDSignal"), si, "the signal", d)
        L.is_(inst + "/divergence", o.get("GetDivergence"), fa - sl - si, "the divergence", d)
        L.is_(inst + "/count", o.get("GetNumOhlcTicks"), count, "the number of ticks", d)

    def nxt(fa, sl, si, c):
        a, b = wf * c + (1 - wf) * fa, ws * c + (1 - ws) * sl
        return a, b, wg * (a - b) + (1 - wg) * si
    o.add("x")
    state("first", tk("x"), tk("x"), V(0), 1)
    o.revise("x", "y")
    state("first/revised", tk("y"), tk("y"), V(0), 1)
    one = (tk("y"), tk("y"), V(0))
    o.shift("y", "z")
    state("second", *nxt(*one, tk("z")), 2)
    o.revise("z", "q")
    state("second/revised", *nxt(*one, tk("q")), 2)
    L.done()
    o = L.o = mk_()
    why = o.general("k", lambda i: o.add("t0") if i == 0 else o.shift("t%d" % (i - 1), "t%d" % i))
    if why:
        return ctx.undec(R, L.nm + "/step", o.f.where, why)
    d = (V(o.k) >= 1).d
    g0 = tuple(o.get(x) for x in ("GetFastExponentialMovingAverage", "GetSlowExponentialMovingAverage", "GetMACDSignal"))
    o.shift("g", "x")
    state("later", *nxt(*g0, tk("x")), V(o.k) + 1, d)
    o.revise("x", "y")
    state("later/revised", *nxt(*g0, tk("y")), V(o.k) + 1, d)
    o.revise("y", "z")
    e = nxt(*g0, tk("z"))
    state("later/revised-again", *e, V(o.k) + 1, d)
    o.shift("z", "q")
    state("later/next", *nxt(*e, tk("q")), V(o.k) + 2, d)
    L.done()


# ---------------------------------------------------------------- I09: volatility
def ratio(a):
    """(q, negated) with a = log(q) or -log(q); log(x) - log(y) is log(x / y)."""
    islog = lambda t: "log" in t.op and "log1p" not in t.op and "log2" not in t.op and "log10" not in t.op and len(t.args) == 1
    if a is None:
        return None
    if islog(a):
        return a.args[0], False
    if a.op != "poly" or any(len(m) != 1 or m[0][1] != 1 or not islog(m[0][0]) for m, c in a.args):
        return None
    cs = [(c, V(m[0][0].args[0])) for m, c in a.args]
    if len(cs) == 1 and cs[0][0] == -1:
        return single(cs[0][1].d), True
    if len(cs) == 2 and sorted(c for c, x in cs) == [-1, 1]:
        (c1, x), (c2, y) = cs
        return (single((x / y).d) if c1 == 1 else single((y / x).d)), False
    return None


def i09(ctx):
    R = "volatility"
    ctx.rule(R, "each period contributes one logarithmic return of the portfolio value base * close + quote at the balances given with the latest update, from the previous "
                "period's last value (in the first period: the value at its open); a revision replaces the newest return; the volatility is the standard deviation of the sliding "
                "window of returns")
    cls = "trader::Volatility"
    n, p = params(ctx, cls, ["N", "P"])
    ops = {SW + "::" + m: m for m in ("AddNewValue", "UpdateCurrentValue", "GetStandardDeviation", "GetVariance", "GetMean")}
    o = Ind(ctx, cls, [n, p], opaque=tuple(ops))
    L = Law(ctx, R, o)
    bal = [(V(arg("b%d" % i)), V(arg("q%d" % i))) for i in range(8)]
    L.wired(2, p)
    size = Obj(ctx, SW, [arg("W", isint=True)])
    sz = [loc[1:] for loc, x in size.st.mem.items() if loc[:1] == (THIS,) and isinstance(x, T) and x.op == "W"]
    win = (THIS, one_field(ctx, cls, lambda t: t == SW, SW))
    for s in sz:
        x = o.I.load(o.st, win + s, "i")
        L.check("window-size", o.f.where, x is n, "the returns are taken over a window of %s" % showdd(x, 2))
    o.events()
    r = o.get("GetVolatility")
    ev = o.events()
    if len(ev) == 1 and ev[0].name in ops and odd(r) is not None:
        dev = r.d
        L.check("value", o.where, ev[0].name == SW + "::GetStandardDeviation" and isinstance(dev, T) and dev.op == "ret" and ev[0].uid in dev.args,
                "the volatility is not the standard deviation")
    else:
        ctx.undec(R, "Volatility/value", o.where, "the value is %s" % short(showdd(r.d, 2)))
    sign = [None]

    def fed(inst, op, prev, cur, count):
        ev = [e for e in o.fired if not isinstance(e, interp.Loop) and e.name in ops and ops[e.name] in ("AddNewValue", "UpdateCurrentValue")]
        L.check(inst + "/once", o.f.where, len(ev) == 1 and ev[0].name == SW + "::" + op and implies(o.st.pc, ev[0].pc)[0], "a tick does not contribute one return (%s)" % op)
        if len(ev) != 1:
            return
        got = V(ev[0].args[0])
        if odd(got):
            return ctx.undec(R, "Volatility/" + inst, ev[0].where, "return %s" % short(showdd(got.d, 2)))
        # the direction does not matter for the deviation as long as it is always the same
        for lits, t in cubes_of(got.d):
            c = prune(dd_and(cube(lits), L.dom))
            if c is FALSE:
                continue
            q = ratio(t)
            if q is None:
                ctx.undec(R, "Volatility/" + inst, ev[0].where, "return %s" % short(show(t)))
                continue
            q, neg = q
            if q is None:
                ctx.undec(R, "Volatility/" + inst, ev[0].where, "return %s" % short(show(t)))
                continue
            df, db = rat_differ(q, (cur / prev).d, c), rat_differ(q, (prev / cur).d, c)
            L.check(inst + "/return", ev[0].where, df is FALSE or db is FALSE, "the return is the logarithm of %s when %s" % (short(show(q)), short(witness(df))))
            if df is FALSE or db is FALSE:
                s = (df is FALSE) != neg
                sign[0] = s if sign[0] is None else sign[0]
                L.check(inst + "/direction", ev[0].where, sign[0] == s, "the direction of the return changes")
        L.is_(inst + "/count", o.get("GetNumOhlcTicks"), count, "the number of ticks")

    def val(i, t, f="close"):
        return bal[i][0] * tk(t, f) + bal[i][1]

    def up(i):
        o.more = bal[i]
    A, U = "AddNewValue", "UpdateCurrentValue"
    up(0); o.add("x")
    fed("first", A, val(0, "x", "open"), val(0, "x"), 1)
    up(1); o.revise("x", "y")
    fed("first/revised", U, val(0, "x", "open"), val(1, "y"), 1)
    up(2); o.add("z", prev="y")
    fed("second", A, val(1, "y"), val(2, "z"), 2)
    up(3); o.revise("z", "q", prev="y")
    fed("second/revised", U, val(1, "y"), val(3, "q"), 2)
    up(4); o.shift("y", "r", prev="q")
    fed("third", A, val(3, "q"), val(4, "r"), 3)
    up(5); o.shift("q", "s", prev="r")
    fed("fourth", A, val(4, "r"), val(5, "s"), 4)
    up(6); o.revise("s", "u", prev="r")
    fed("fourth/revised", U, val(4, "r"), val(6, "u"), 4)
    L.done()


PROPERTIES = {"I01": [i01], "I02": [i02], "I03": [i03], "I04": [i04], "I05": [i05], "I06": [i06], "I07": [i07], "I08": [i08], "I09": [i09]}
