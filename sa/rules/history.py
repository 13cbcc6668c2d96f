"""Price history: subsets, resampling, gaps, outliers."""
from ..util import *
from ..runner import Anchor
from .. import interp

NS = "trader::"
H = ("H",)
HP = interp.ptr((H,))


def hrec(i, f):
    return leaf(H, "[]", i, f)


def nrec():
    return mkT("nrec", nn=True, isint=True)


def canon_pp(d):
    """pp(lo, hi, pred) over a sorted range is max(lo, pp(0, hi, pred)) clipped to the range."""
    def f(t):
        if t.op == "pp" and t.args[0] is not ZERO:
            lo, hi, pred = t.args
            full = mkT("pp", ZERO, hi, pred, isint=True)
            return vmax(lo, full).d
        return None
    for _ in range(3):
        e = subst_term(d, f)
        if e is d:
            return d
        d = e
    return d


def bound_of(d):
    for y in term_subterms(d):
        if y.op == "bound":
            return y
    return mkT("bound", 0, isint=True, nn=True)


def it_index(d, c):
    """Iterator into container at pointer c -> index diagram, or None."""
    ok = all(t.op == "it" and t.args[0] is c for t in leaves(d))
    return dd_apply(lambda t: t.args[1], d) if ok else None


def h01(ctx):
    R = "subset"
    ctx.rule(R, "the subset starts at the first record at or after the start (or at the beginning when the start is not positive), ends before the first record at or "
                "after the end (or at the end), never ends before it starts, and its copy holds exactly these records in order")
    for f in ctx.fn(NS + "HistorySubset"):
        hist = proot(f, 0)
        hp = interp.ptr((hist,))
        n = leaf(hist, "$n", nn=True)
        s, e = mkT("start", isint=True), mkT("end", isint=True)
        I, st, v, rl = run(ctx, f, args=[None, s, e])
        inst = f.where + "/" + short(f.key, 60)
        if gaps(I) or I.loops:
            ctx.undec(R, "subset", f.where, (gaps(I) or ["a hand-written search"])[0])
            continue
        a = it_index(I.load(st, (("ret", 0), "first"), "p"), hp)
        b = it_index(I.load(st, (("ret", 0), "second"), "p"), hp)
        if a is None or b is None:
            ctx.undec(R, "subset", f.where, "the result is not a pair of iterators into the history")
            continue
        bd = bound_of(a) if mentions(a, lambda t: t.op == "bound") else bound_of(b)
        ts = leaf(hist, "[]", bd, "timestamp_sec", isint=True)

        def pp(x):
            return V(mkT("pp", ZERO, n, (V(ts) < x).d, isint=True))
        ra = ite(V(s) > 0, pp(s), 0)
        rb = ite(V(e) > 0, vmax(pp(e), ra), n)
        ca, cb = canon_pp(a), canon_pp(b)
        if gallops(ca) or gallops(cb):
            ctx.undec(R, "subset", f.where, "search result %s" % short(showdd(ca, 2)))
            continue
        d = differ(ca, ra.d)
        ctx.check(R, "first", f.where, d is FALSE, "the subset starts at %s when %s" % (short(showdd(a, 2)), short(witness(d))))
        d = differ(cb, rb.d)
        ctx.check(R, "second", f.where, d is FALSE, "the subset ends at %s when %s" % (short(showdd(b, 2)), short(witness(d))))
    h01_copy(ctx, R)


def gallops(d):
    return mentions(d, lambda t: t.op in ("kappa", "mu", "ppit"))


def h01_copy(ctx, R):
    for f in ctx.fn(NS + "HistorySubsetCopy"):
        hist = proot(f, 0)
        n = leaf(hist, "$n", nn=True)
        s, e = mkT("start", isint=True), mkT("end", isint=True)
        I, st, v, rl = run(ctx, f, args=[None, s, e])
        if gaps(I):
            ctx.undec(R, "copy", f.where, gaps(I)[0])
            continue
        ret = ("ret", 0)
        rn = I.load(st, ret + ("$n",) if False else (ret, "$n"), "u")
        bd = next((y for y in term_subterms(rn) if y.op == "bound"), None) or next(
            (y for L in loops_of(I.ev) for y in term_subterms(L.cond) if y.op == "bound"), mkT("bound", 0, isint=True, nn=True))
        ts = leaf(hist, "[]", bd, "timestamp_sec", isint=True)

        def pp(x):
            return V(mkT("pp", ZERO, n, (V(ts) < x).d, isint=True))
        ra = ite(V(s) > 0, pp(s), 0)
        rb = ite(V(e) > 0, vmax(pp(e), ra), n)
        dom = dd_and((rb >= ra).d, dd_and(((pp(s) >= 0) & (pp(s) <= n)).d, ((pp(e) >= 0) & (pp(e) <= n)).d))
        size = (rb - ra).d
        if mentions(rn, lambda t: t.op in ("mu", "ppit", "kappa")):
            ctx.undec(R, "copy", f.where, "size %s" % short(showdd(rn, 2)))
            continue
        d = differ(canon_pp(rn), size, dom)
        ctx.check(R, "copy/all", f.where, d is FALSE, "the copy has %s records when %s" % (short(showdd(rn, 2)), short(witness(d))))
        Ls = [L for L in loops_of(I.ev) if [1 for loc in L.mods if loc[-1] == "$n"]]
        if Ls:
            L = Ls[-1]
            C = [loc[:-1] for loc in L.mods if loc[-1] == "$n"]
            bk = I.load(L.back, C[0] + ("$n",), "u")
            if len(Ls) != 1 or len(C) != 1 or [b for b in L.breaks if b.pc is not FALSE] or I.load(L.head, C[0] + ("$n",), "u") is not L.kappa:
                ctx.undec(R, "copy", L.where, "loop that copies the subset")
                continue
            d = differ(bk, t_add(L.kappa, ONE), L.back.pc)
            ctx.check(R, "copy/every", L.where, d is FALSE, "a record of the subset is skipped or doubled when " + short(witness(d)))
            j, und = L.kappa, dd_and(canon_pp(L.back.pc), dom)
            at, loc = L.back, C[0]
        else:
            j = mkT("j", isint=True, nn=True)
            at, loc, und = st, (ret,), dd_and(dom, (V(j) < (rb - ra)).d)
        for g in ("timestamp_sec",):
            got = canon_pp(I.load(at, loc + ("[]", j, g), "i"))
            want = dd_apply(lambda i: leaf(hist, "[]", t_add(i, j), g, isint=True), ra.d)
            d = differ(got, want, und)
            ctx.check(R, "copy/element", f.where, d is FALSE, "record %s of the copy is %s when %s" % (show(j), short(showdd(got, 2)), short(witness(d))))


# ---------------------------------------------------------------- resample
class RS:
    pass


def resample_view(ctx):
    c = ctx.__dict__.setdefault("_rs", {})
    if "v" in c:
        return c["v"]
    f = ctx.fn(NS + "Resample", 0)
    if len(f.d["params"]) != 3:
        raise Anchor("Resample(begin, end, rate)")
    n = nrec()
    rate = mkT("rate", nn=True, isint=True)
    I, st, v, rl = run(ctx, f, args=[interp.it(HP, ZERO), interp.it(HP, n), rate])
    w = RS()
    w.I, w.st, w.f, w.n, w.rate = I, st, f, n, rate
    w.gap = None
    if gaps(I):
        w.gap = gaps(I)[0]
    w.outer = [L for L in I.ev if isinstance(L, interp.Loop)]
    w.L = w.C = None
    for L in w.outer:
        cs = {loc[:-1] for loc in L.mods if loc[-1] == "$n"}
        cs = {c for c in cs if c[0] != ("H",)}
        if len(cs) == 1:
            w.L, w.C = L, cs.pop()
    w.inner = None
    if w.L is not None:
        ins = [M for M in loops_of(w.L.ev) if w.C + ("$n",) in M.mods]
        if len(ins) == 1:
            w.inner = ins[0]
        elif len(ins) > 1:
            w.gap = w.gap or "several loops append ticks"
    c["v"] = w
    return w


def rs_ok(ctx, R, w):
    if w.gap:
        ctx.undec(R, "resample", w.f.where, w.gap)
        return False
    if w.L is None:
        ctx.undec(R, "resample", w.f.where, "no loop over the records appends to one list of ticks")
        return False
    return True


def grid(w):
    ts = V(hrec(w.L.kappa, "timestamp_sec"))
    return V(w.rate) * idiv(ts, w.rate)


TF = ("open", "high", "low", "close")


class Post:
    """The list of ticks after the gap before a record is filled (or at the start of the iteration when nothing is filled)."""

    def __init__(self, w):
        self.w, self.M = w, w.inner

    def both(self, f):
        w, M = self.w, self.M
        h = f(w.L.head)
        if M is None:
            return h
        return dd_ite(M.pc, f(M.after), h)

    def count(self):
        return self.both(lambda st: self.w.I.load(st, self.w.C + ("$n",), "u"))

    def last(self, fld, kind="f"):
        return self.both(lambda st: last(self.w.I, st, self.w.C, fld, kind))

    def at(self, j, fld, kind="f"):
        return self.both(lambda st: self.w.I.load(st, self.w.C + ("[]", j, fld), kind))


def h02(ctx):
    R = "resample"
    ctx.rule(R, "each record either opens a tick (open = high = low = close = price, volume = its volume) or is merged into the last tick (open kept, high/low "
                "extended, close = price, volume added), every record in order; a gap tick repeats the previous close with volume 0")
    w = resample_view(ctx)
    if not rs_ok(ctx, R, w):
        return
    I, L, C = w.I, w.L, w.C
    full_loop(ctx, R, "every-record", I, L, w.n)
    P = Post(w)
    N = P.count()
    dom = dd_and(nn_counts(N), nn_counts(I.load(L.head, C + ("$n",), "u")))
    t = grid(w)
    lastts = V(P.last("timestamp_sec", "i"))
    new = dd_or((V(N) < 1).d, (lastts < t).d)
    nb = I.load(L.back, C + ("$n",), "u")
    pc = dd_and(L.back.pc, dom)
    d = differ(nb, (ite(V(new), V(N) + 1, V(N))).d, pc)
    ctx.check(R, "one-tick", L.where, d is FALSE, "a record opens a tick wrongly: the number of ticks becomes %s when %s" % (short(showdd(nb, 2)), short(witness(d))))
    if d is not FALSE:
        return
    pr, vo = V(hrec(L.kappa, "price")), V(hrec(L.kappa, "volume"))
    old = {f: V(P.last(f)) for f in TF + ("volume",)}
    # every tick's open and close lie between its low and high: so it is when opened, and each step below keeps it so
    for f in ("open", "close"):
        pc = dd_and(pc, dd_or(new, dd_and((old["low"] <= old[f]).d, (old[f] <= old["high"]).d)))
    want = {"open": ite(V(new), pr, old["open"]), "high": ite(V(new), pr, vmax(old["high"], pr)), "low": ite(V(new), pr, vmin(old["low"], pr)),
            "close": pr, "volume": ite(V(new), vo, old["volume"] + vo)}
    for f, ref in want.items():
        got = last(I, L.back, C, f)
        d = differ(got, ref.d, pc)
        ctx.check(R, f, L.where, d is FALSE, "the tick's %s becomes %s when %s" % (f, short(showdd(under(got, pc), 2)), short(witness(d))))
    # earlier ticks are not touched
    j = mkT("j", isint=True, nn=True)
    und = dd_and(pc, (V(j) < V(N) - 1).d)
    for f in TF + ("volume", "timestamp_sec"):
        d = differ(I.load(L.back, C + ("[]", j, f), "f"), P.at(j, f), und)
        ctx.check(R, "closed/" + f, L.where, d is FALSE, "a closed tick's %s changes when %s" % (f, short(witness(d))))
    if w.inner is not None:
        M = w.inner
        hn = I.load(M.head, C + ("$n",), "u")
        bn = I.load(M.back, C + ("$n",), "u")
        d = differ(bn, dd_apply(t_add, hn, ONE), M.back.pc)
        ctx.check(R, "gap/one", M.where, d is FALSE, "one step of filling a gap adds %s ticks" % short(showdd(dd_apply(t_sub, bn, hn), 2)))
        nofill = prune(dd_and(M.pc, (V(I.load(M.entry, C + ("$n",), "u")) >= 1).d)) is not FALSE
        cf = {"close": ClosedForm(w, "close", lambda first, k: first)}
        for f in TF + ("volume",):
            # whatever the previous tick holds: its close is the close of the last tick before the gap
            got = last(I, M.back, C, f)
            ref = cf["close"].first if f != "volume" else ZERO
            res = cf["close"].holds(f) if f == "close" else cf["close"].equal(got, ref)
            if res is None:
                ctx.undec(R, "gap/" + f, M.where, "the gap tick's %s is %s" % (f, short(showdd(under(got, M.back.pc), 2))))
            else:
                ctx.check(R, "gap/" + f, M.where, res is FALSE, "the gap tick's %s is %s when %s" % (
                    f, short(showdd(under(got, M.back.pc), 2)), short(witness(res))))
    rn = I.load(w.st, (("ret", 0), "$n"), "u")
    ex = I.load(L.after, C + ("$n",), "u")
    # `return list` on the path that reaches the loop
    d = differ(rn, ex, L.after.pc)
    ctx.check(R, "returned", w.f.where, d is FALSE, "the result is not the resampled list when " + short(witness(d)))


def nn_counts(d):
    c = TRUE
    for t in leaves(d):
        c = dd_and(c, (V(t) >= 0).d) if not t.nn else c
    return c


class ClosedForm:
    """A field of the last tick as a function of the fill iteration: proved by induction over the fill loop (at the first
    iteration, and preserved by one), then substituted."""

    def __init__(self, w, fld, form, kind="f"):
        I, M, C = w.I, w.inner, w.C
        self.w, self.M, self.fld = w, M, fld
        self.head = last(I, M.head, C, fld, kind)
        self.back = last(I, M.back, C, fld, kind)
        self.first = last(I, M.entry, C, fld, kind)
        self.cf = dd_apply(lambda t: form(t, M.kappa), self.first)
        self.next = dd_apply(lambda t: form(t, t_add(M.kappa, ONE)), self.first)
        e0 = I.load(M.entry, C + ("$n",), "u")
        self.n0 = dd_and(nn_counts(e0), dd_apply(lambda t: (V(t) >= 1).d, e0))
        self.ok = isinstance(self.head, T) and self.head.op == "ld"

    def sub(self, d):
        return subst_term(d, lambda t: self.cf if t is self.head else None)

    def dom(self):
        return dd_and(dd_and(self.sub(self.M.back.pc), self.n0), (V(self.M.kappa) >= 0).d)

    def equal(self, got, ref):
        """Condition under which the value differs, with the closed form assumed at the head; None: cannot tell."""
        if not self.ok:
            return None
        g = self.sub(got)
        d = differ(g, ref, self.dom())
        if d is not FALSE and mentions(under(g, d), lambda t: t.op == "mu" and t.args[0] == self.M.lid and t.args[1][0][0] in ("v", "t") and
                                       t.args[1][:len(self.w.C)] != self.w.C):
            return None
        return d

    def holds(self, f=None):
        return self.equal(self.back, self.next)


def h03(ctx):
    R = "grid"
    ctx.rule(R, "a tick opened by a record lies at rate * floor(timestamp / rate); gaps are filled before it, one rate apart, exactly while the next grid point is "
                "before the record's; so consecutive ticks are one rate apart")
    w = resample_view(ctx)
    if not rs_ok(ctx, R, w):
        return
    I, L, C = w.I, w.L, w.C
    t = grid(w)
    M = w.inner
    if M is None:
        ctx.bad(R, "gap", L.where, "gaps between records are never filled")
        return
    rate = w.rate
    cf = ClosedForm(w, "timestamp_sec", lambda first, k: t_add(first, t_mul(rate, t_add(k, ZERO))), "i")
    res = cf.holds()
    if res is None:
        ctx.undec(R, "gap/step", M.where, "the gap tick's timestamp is %s" % short(showdd(under(cf.back, M.back.pc), 2)))
        return
    ctx.check(R, "gap/step", M.where, res is FALSE, "the gap tick's timestamp is %s when %s" % (short(showdd(under(cf.back, M.back.pc), 2)), short(witness(res))))
    if res is not FALSE:
        return
    # filled exactly while the next grid point lies before the record's
    e0 = I.load(M.entry, C + ("$n",), "u")
    kdom = dd_and(nn_counts(e0), dd_and((V(M.kappa) >= 0).d, dd_apply(lambda x: (V(x) >= 0).d, I.load(M.head, C + ("$n",), "u"))))
    nxt = dd_apply(lambda x: (V(x) + w.rate < t).d, cf.cf)
    want = dd_and(dd_apply(lambda x: (V(x) >= 1).d, e0), nxt)
    # with an empty list there is no head tick to follow
    go = cf.sub(M.back.pc)
    d = differ(go, want, dd_and(dd_and(M.pc, kdom), dd_or(dd_apply(lambda x: (V(x) >= 1).d, e0), (V(M.kappa) < 1).d)))
    ctx.check(R, "gap/while", M.where, d is FALSE, "gaps are filled while %s, expected while last + rate < next: %s" % (short(showdd(M.cond, 2)), short(witness(d))))
    h0 = I.load(L.head, C + ("$n",), "u")
    hts = V(last(I, L.head, C, "timestamp_sec", "i"))
    need = dd_and(body_pc(L), dd_and((V(h0) >= 1).d, (hts + w.rate < t).d))
    ok, d = implies(need, M.pc)
    ctx.check(R, "gap/always", M.where, ok, "a gap is not filled when " + short(witness(d)))
    P = Post(w)
    Np = P.count()
    new = dd_or((V(Np) < 1).d, (V(P.last("timestamp_sec", "i")) < t).d)
    pc3 = dd_and(L.back.pc, dd_and(nn_counts(Np), nn_counts(h0)))
    got = last(I, L.back, C, "timestamp_sec", "i")
    d = differ(got, t.d, dd_and(pc3, new))
    ctx.check(R, "aligned", L.where, d is FALSE, "a new tick is placed at %s when %s" % (short(showdd(under(got, dd_and(pc3, new)), 9),3000), short(witness(d),2000)))
    d = differ(got, P.last("timestamp_sec", "i"), dd_and(pc3, dd_not(new)))
    ctx.check(R, "kept", L.where, d is FALSE, "merging a record moves the tick when " + short(witness(d), 600))


# ------------------------------------------------------------------- gaps
def h05(ctx):
    R = "gaps"
    ctx.rule(R, "every distance between consecutive records, and between the interval bounds and the first/last record when bounds are given, is a candidate; the "
                "candidate dropped whenever there are more than n is the shortest; what remains is returned sorted by time")
    f = ctx.fn(NS + "GetPriceHistoryGaps", 0)
    if len(f.d["params"]) != 5:
        raise Anchor("GetPriceHistoryGaps(begin, end, start, end, n)")
    n = nrec()
    s, e, top = mkT("start", isint=True), mkT("end", isint=True), mkT("topn", nn=True, isint=True)
    I, st, v, rl = run(ctx, f, args=[interp.it(HP, ZERO), interp.it(HP, n), s, e, top])
    if gaps(I):
        ctx.undec(R, "gaps", f.where, gaps(I)[0])
        return
    ev = [(x, stk, p) for x, stk, p in walk(I.ev) if x.kind == "pq"]
    push = [x for x in ev if x[0].name == "push"]
    ctor = [x for x in ev if x[0].name == "ctor"]
    if not push or not ctor:
        ctx.undec(R, "gaps", f.where, "no priority queue of gaps")
        return
    dom = (V(n) >= 1).d
    seen = {"between": FALSE, "start": FALSE, "end": FALSE}
    for x, stk, p in push:
        loc = interp.loc_of(x.args[0])
        a, b = (I.load(x.st, loc + (g,), "i") for g in ("first", "second"))
        k = stk[-1].kappa if stk else None
        got = None
        pc = dd_and(x.pc, dom)
        # candidates by what is pushed
        cands = {"start": ((V(s) > 0).d, s, hrec(ZERO, "timestamp_sec")), "end": ((V(e) > 0).d, hrec(t_sub(n, ONE), "timestamp_sec"), e)}
        if k is None:
            g = lambda y: at_exit(I, unroll(I, y))
            a, b, pc = g(a), g(b), dd_and(g(x.pc), dom)
            for nm, (c, ra, rb) in cands.items():
                if (mentions(a, lambda t: t is s) if nm == "start" else mentions(b, lambda t: t is e)):
                    got = nm
                    if mentions(a, lambda t: t.op in ("mu", "kappa")):
                        ctx.undec(R, nm, x.where, "gap from %s" % short(showdd(a, 2)))
                        continue
                    d = dd_or(differ(a, ra, pc), differ(b, rb, pc))
                    ctx.check(R, nm, x.where, d is FALSE, "the gap at the %s is (%s, %s)" % (nm, short(showdd(under(a, pc), 2)), short(showdd(under(b, pc), 2))))
                    d = differ(pc, c, dom)
                    ctx.check(R, nm + "/iff-given", x.where, d is FALSE, "the gap at the %s is considered wrongly when %s" % (nm, short(witness(d))))
                    seen[nm] = TRUE
        else:
            got = "between"
            L = stk[-1]
            between(ctx, R, I, x, L, a, b, n)
            seen[got] = TRUE
        if got is None:
            ctx.undec(R, "push", x.where, "candidate (%s, %s)" % (short(showdd(a, 2)), short(showdd(b, 2))))
            return
    for nm, c in seen.items():
        ctx.check(R, nm + "/considered", f.where, c is TRUE, "gaps %s are not considered" % {"between": "between records", "start": "before the first record",
                                                                                             "end": "after the last record"}[nm])
    bounded(ctx, R, I, f, top, push)
    order(ctx, R, I, f, ctor[0][0])
    sort = [x for x, stk, p in walk(I.ev) if x.kind == "algo" and x.name in ("std::sort", "std::stable_sort")]
    rev = [x for x, stk, p in walk(I.ev) if x.kind == "algo" and x.name not in ("std::sort", "std::stable_sort")]
    if not sort:
        ctx.bad(R, "sorted", f.where, "the gaps are returned in the order of their length")
    else:
        ctx.check(R, "sorted", sort[-1].where, not rev and len(sort[-1].args) >= 2 and (len(sort[-1].args) == 2 or sort[-1].args[2].op == "null"),
                  "the gaps are not sorted chronologically")
        d = differ(at_exit(I, unroll(I, sort[-1].pc)), TRUE, dom)
        ctx.check(R, "sorted/always", sort[-1].where, d is FALSE, "the gaps are not sorted when " + short(witness(d)))


def between(ctx, R, I, x, L, a, b, n):
    """Pushed in iteration k: the gap between the previous and the current record."""
    dom = (V(n) >= 1).d
    u = lambda d: unroll(I, d, L.lid)
    pc = dd_and(u(x.pc), dom)
    ia, ib = rec_index(u(a), pc), rec_index(u(b), pc)
    if ia is None or ib is None or mentions(ia, lambda t: t.op == "mu") or mentions(ib, lambda t: t.op == "mu"):
        ctx.undec(R, "between", x.where, "gap (%s, %s)" % (short(showdd(a, 2)), short(showdd(b, 2))))
        return
    ctx.check(R, "between", x.where, t_sub(ib, ia) is ONE, "the gap is taken between records %s and %s" % (show(ia), show(ib)))
    want = dd_and((V(ib) >= 1).d, (V(ib) < V(n)).d)
    d = differ(pc, want, dd_and(u(L.pc), dom))
    if mentions(d, lambda t: t.op == "mu"):
        ctx.undec(R, "between/every", x.where, "a pair is considered when " + short(showdd(pc, 2)))
        return
    ctx.check(R, "between/every", x.where, d is FALSE, "a pair of records is not considered, or wrongly so, when " + short(witness(d)))


def rec_index(d, pc):
    t = single(under(d, pc))
    if t is not None and t.op == "ld" and t.args[0] is mkT("obj", H) and len(t.args[1]) == 3 and t.args[1][2] == "timestamp_sec":
        return t.args[1][1]
    return None


def bounded(ctx, R, I, f, top, push):
    """After every push the queue holds min(n + 1, top) elements."""
    Q = interp.loc_of(push[0][0].obj)
    no = Q + ("$n",)
    for L in loops_of(I.ev):
        if no in L.mods and any(x[1] and x[1][-1] is L for x in push) and L.back.pc is not FALSE:
            h, b = I.load(L.head, no, "u"), I.load(L.back, no, "u")
            if not isinstance(h, T):
                ctx.undec(R, "at-most-n", L.where, "queue size")
                continue
            dom = dd_and((V(h) <= V(top)).d, (V(h) >= 0).d)
            pcs = union([x[0].pc for x in push if x[1] and x[1][-1] is L])
            want = dd_ite(pcs, vmin(V(h) + 1, top).d, h)
            d = differ(b, want, dd_and(L.back.pc, dom))
            ctx.check(R, "at-most-n/loop", L.where, d is FALSE, "the number of gaps kept becomes %s when %s" % (short(showdd(under(b, dom), 2)), short(witness(d))))
            e = I.load(L.entry, no, "u")
            ok, d = implies(L.pc, dd_apply(lambda t: (V(t) <= V(top)).d, e))
            ctx.check(R, "at-most-n/before", L.where, ok, "more than n gaps are kept when " + short(witness(d)))
    # one is dropped only when more than n are held, the new one included
    for x, stk, p in walk(I.ev):
        if x.kind == "pq" and x.name == "pop" and interp.loc_of(x.obj) == Q and (not stk or any(y[1] and y[1][-1] is stk[-1] for y in push)):
            h = I.load(x.st, no, "u")
            dom = TRUE
            for t in {t for t in term_subterms(h) if t.op == "mu" and t.args[1] == no}:
                dom = dd_and(dom, dd_and((V(t) <= V(top)).d, (V(t) >= 0).d))
            ok, d = implies(x.pc, dd_apply(lambda t: (V(t) > V(top)).d, h), dom)
            ctx.check(R, "drop-only-excess", x.where, ok, "a gap is dropped although no more than n are held when " + short(witness(d)))
    # the loop that empties the queue starts with at most n and hands every element over
    for L in loops_of(I.ev):
        pops = [x for x, s, p in walk(L.ev) if x.kind == "pq" and x.name == "pop"]
        if no in L.mods and pops and not any(x[1] and x[1][-1] is L for x in push):
            e = I.load(L.entry, no, "u")
            mu = {t for t in term_subterms(e) if t.op == "mu" and t.args[1] == no}
            dom = TRUE
            for t in mu:
                dom = dd_and(dom, dd_and((V(t) <= V(top)).d, (V(t) >= 0).d))
            ok, d = implies(L.pc, dd_apply(lambda t: (V(t) <= V(top)).d, e), dom)
            ctx.check(R, "at-most-n/after", L.where, ok, "more than n gaps are kept when " + short(witness(d)))
            d = differ(L.cond, dd_apply(lambda t: t_lt(L.kappa, t), e), L.pc)
            ctx.check(R, "all-returned", L.where, d is FALSE and not [b for b in L.breaks if b.pc is not FALSE], "not every kept gap is returned")
            out = [loc[:-1] for loc in L.mods if loc[-1] == "$n" and loc != no]
            if len(out) == 1:
                hn, bn = I.load(L.head, out[0] + ("$n",), "u"), I.load(L.back, out[0] + ("$n",), "u")
                d = differ(bn, dd_apply(t_add, hn, ONE), L.back.pc)
                ctx.check(R, "each-returned", L.where, d is FALSE, "a kept gap is returned %s times" % short(showdd(dd_apply(t_sub, bn, hn), 2)))


def union(ds):
    r = FALSE
    for d in ds:
        r = dd_or(r, d)
    return r


def order(ctx, R, I, f, c):
    """The element dropped first is a shortest one."""
    lam = comparator(I, c)
    if lam is None:
        ctx.undec(R, "shortest-dropped", c.where, "comparator of the queue")
        return
    d, (lf, ls, rf, rs) = lam
    ll, lr = V(ls) - V(lf), V(rs) - V(rf)
    for nm, und, want in (("longer", (ll > lr).d, TRUE), ("shorter", (ll < lr).d, FALSE)):
        x = differ(d, want, und)
        ctx.check(R, "shortest-dropped/" + nm, c.where, x is FALSE, "a gap that is not the shortest is dropped: the queue compares by %s" % short(showdd(d, 3)))


def comparator(I, c):
    from ..models import PQL, PQR
    d = c.args[1] if len(c.args) > 1 else None
    if d is None:
        return None
    fs = [leaf(r, g, isint=True) for r in (PQL, PQR) for g in ("first", "second")]
    ok = all(t.op != "ev" for t in term_subterms(d))
    return (d, fs) if ok else None


# ---------------------------------------------------------------- outliers
class OV:
    pass


def outlier_view(ctx, null):
    c = ctx.__dict__.setdefault("_ov", {})
    if null in c:
        return c[null]
    f = ctx.fn(NS + "RemoveOutliers", 0)
    if len(f.d["params"]) != 4:
        raise Anchor("RemoveOutliers(begin, end, deviation, indices)")
    n = nrec()
    w = OV()
    w.n, w.f = n, f
    w.dev = mkT("dev")
    w.O = ("OUT",)
    I, st, v, rl = run(ctx, f, args=[interp.it(HP, ZERO), interp.it(HP, n), w.dev, interp.NULL if null else interp.ptr((w.O,))])
    w.I, w.st = I, st
    w.gap = gaps(I)[0] if gaps(I) else None
    w.L = w.C = None
    for L in I.ev:
        if not isinstance(L, interp.Loop):
            continue
        cs = {loc[:-1] for loc in L.mods if loc[-1] == "$n" and loc[0] != w.O}
        if len(cs) == 1:
            w.L, w.C = L, cs.pop()
    if w.L is not None:
        if any((w.C + ("$n",)) in m.mods or ((w.O, "$n") in m.mods) for m in loops_of(w.L.ev)):
            w.gap = w.gap or "an inner loop appends"
        w.keep, w.odd, w.hd = grows(I, w.L, w.C)
        w.rep, w.rodd, w.rhd = grows(I, w.L, (w.O,)) if (w.O, "$n") in w.L.mods else (FALSE, FALSE, None)
    c[null] = w
    return w


def grows(I, L, C):
    """(condition under which the body appends one element, condition under which the size changes otherwise, size before)"""
    no = C + ("$n",)
    h, b = I.load(L.head, no, "u"), I.load(L.back, no, "u")
    plus = dd_apply(lambda x, y: TRUE if t_sub(x, y) is ONE else FALSE, b, h)
    zero = dd_apply(lambda x, y: TRUE if x is y else FALSE, b, h)
    return dd_and(L.back.pc, plus), dd_and(L.back.pc, dd_not(dd_or(plus, zero))), h


def ov_ok(ctx, R, w):
    if w.gap:
        ctx.undec(R, "outliers", w.f.where, w.gap)
        return False
    if w.L is None:
        ctx.undec(R, "outliers", w.f.where, "no loop over the records appends to one list")
        return False
    return True


def valid_rec(w):
    return dd_and((V(hrec(w.L.kappa, "price")) > 0).d, (V(hrec(w.L.kappa, "volume")) >= 0).d)


def h04(ctx):
    R = "partition"
    ctx.rule(R, "every record is visited in order and either copied unchanged to the end of the result or, when a list is given, its index is appended to the list "
                "of outliers, never both; which one does not depend on whether a list is given")
    w, z = outlier_view(ctx, False), outlier_view(ctx, True)
    if not (ov_ok(ctx, R, w) and ov_ok(ctx, R, z)):
        return
    I, L = w.I, w.L
    for x, nm in ((w, "list"), (z, "no-list")):
        full_loop(ctx, R, "every-record/" + nm, x.I, x.L, x.n)
        ctx.check(R, "once/" + nm, x.L.where, x.odd is FALSE, "the result changes by other than one record when " + short(witness(x.odd)))
        d = x.keep
        for g in ("timestamp_sec", "price", "volume"):
            got = elem(x.I, x.L.back, x.C, x.hd, g)
            d = differ(got, hrec(x.L.kappa, g), x.keep)
            ctx.check(R, "copied/%s/%s" % (g, nm), x.L.where, d is FALSE, "the kept record's %s is %s" % (g, short(showdd(under(got, x.keep), 2))))
        rn = x.I.load(x.st, (("ret", 0), "$n"), "u")
        ex = x.I.load(x.L.after, x.C + ("$n",), "u")
        ctx.check(R, "returned/" + nm, x.f.where, differ(rn, ex, x.L.after.pc) is FALSE, "the result is not the list of kept records")
    ctx.check(R, "index-once", L.where, w.rodd is FALSE, "more than one index is reported when " + short(witness(w.rodd)))
    both = prune(dd_and(w.keep, w.rep))
    ctx.check(R, "never-both", L.where, both is FALSE, "a record is kept and reported when " + short(witness(both)))
    none = prune(dd_and(L.back.pc, dd_not(dd_or(w.keep, w.rep))))
    ctx.check(R, "one-of", L.where, none is FALSE, "a record is neither kept nor reported when " + short(witness(none)))
    if w.rhd is not None:
        got = I.load(L.back, (w.O, "[]", w.rhd), "u") if isinstance(w.rhd, T) else dd_apply(lambda i: I.load(L.back, (w.O, "[]", i), "u"), w.rhd)
        d = differ(got, L.kappa, w.rep)
        ctx.check(R, "index", L.where, d is FALSE, "the index reported for record %s is %s" % (show(L.kappa), short(showdd(under(got, w.rep), 2))))
    d = differ(w.keep, z.keep)
    if d is not FALSE and not same_loops(w.I, z.I):
        ctx.undec(R, "independent", L.where, "the two passes differ in shape")
    else:
        ctx.check(R, "independent", L.where, d is FALSE, "what is kept depends on whether a list of outliers is asked for when " + short(witness(d)))


def same_loops(a, b):
    return [(l.lid, l.where) for l in loops_of(a.ev)] == [(l.lid, l.where) for l in loops_of(b.ev)]


def h07(ctx):
    R = "valid"
    ctx.rule(R, "only a record whose price is positive and whose volume is not negative is kept; the first such record is kept")
    for nm, w in (("list", outlier_view(ctx, False)), ("no-list", outlier_view(ctx, True))):
        if not ov_ok(ctx, R, w):
            return
        ok, d = implies(w.keep, valid_rec(w))
        ctx.check(R, "kept/" + nm, w.L.where, ok, "a record is kept when " + short(witness(d)))
        first = dd_and(body_pc(w.L), dd_and(valid_rec(w), dd_apply(lambda t: (V(t) < 1).d, w.hd)))
        ok, d = implies(first, w.keep)
        ctx.check(R, "first/" + nm, w.L.where, ok, "the first valid record is dropped when " + short(witness(d)))


def h08(ctx):
    R = "jump"
    ctx.rule(R, "a valid record after the first is dropped only if its price lies outside [last / f, last * f] of the last kept price, f = (1 + deviation) * "
                "sqrt(max(1, minutes since)), and fewer than three of the next (at most ten) valid records stay beyond 80% of the jump; otherwise it is kept")
    for null in (False, True):
        h08_view(ctx, R, outlier_view(ctx, null))


def h08_view(ctx, R, w):
    if not ov_ok(ctx, R, w):
        return
    I, L, C = w.I, w.L, w.C
    k = L.kappa
    lst = {g: V(last(I, L.head, C, g, "i" if g == "timestamp_sec" else "f")) for g in ("timestamp_sec", "price")}
    pr, ts = V(hrec(k, "price")), V(hrec(k, "timestamp_sec"))
    dur = vmax(1, (ts - lst["timestamp_sec"]) / 60)
    f = (1 + V(w.dev)) * fun("sqrt", dur)
    hi, lo = lst["price"] * f, lst["price"] / f
    up, down = (pr > hi).d, (pr < lo).d
    base = dd_and(body_pc(L), dd_and(valid_rec(w), dd_apply(lambda t: (V(t) >= 1).d, w.hd)))
    ok, d = implies(dd_and(base, dd_not(dd_or(up, down))), w.keep)
    ctx.check(R, "no-jump", L.where, ok, "a record whose price is within the bounds is dropped when " + short(witness(d, 20), 900))
    inner = [M for M in loops_of(L.ev)]
    jump = dd_and(base, dd_or(up, down))
    if not inner and prune(jump) is not FALSE:
        # what becomes of a record that jumped must depend on the records after it
        for always, c, nm in ((implies(jump, w.keep)[0], jump, "kept"), (prune(dd_and(jump, w.keep)) is FALSE, jump, "dropped")):
            if always:
                ctx.bad(R, "lookahead", L.where, "a record that jumped is always %s, whatever follows" % nm)
                return
    if len(inner) != 1:
        ctx.undec(R, "lookahead", L.where, "%d lookahead loops" % len(inner))
        return
    M = inner[0]
    # the record looked at in iteration m
    j = t_add(t_add(k, ONE), M.kappa)
    jp, jv = V(hrec(j, "price")), V(hrec(j, "volume"))
    jvalid = dd_and((jp > 0).d, (jv >= 0).d)
    midu, midd = hi * Fraction(4, 5) + lst["price"] * Fraction(1, 5), lo * Fraction(4, 5) + lst["price"] * Fraction(1, 5)
    stay = dd_and(jvalid, dd_or(dd_and(up, (jp > midu).d), dd_and(down, (jp < midd).d)))
    roles = {}
    for loc, kd in M.mods.items():
        if kd != "v" or loc[-1] in ("$n",):
            continue
        h, b = I.load(M.head, loc, I.kinds.get(loc, "?")), I.load(M.back, loc, I.kinds.get(loc, "?"))
        if not isinstance(h, T) or h.op != "mu":
            continue
        inc = dd_apply(lambda x: TRUE if t_sub(x, h) is ONE else FALSE, b)
        oth = dd_apply(lambda x: TRUE if x is not h and t_sub(x, h) is not ONE else FALSE, b)
        roles[loc] = (h, inc, oth, I.load(M.entry, loc, I.kinds.get(loc, "?")))
    # no price is both above the upper and below the lower bound: the permitted deviation is not negative
    pcm = dd_and(M.back.pc, dd_not(dd_and(up, down)))
    seen = [(l, r) for l, r in roles.items() if differ(approx(r[1]), approx(jvalid), pcm) is FALSE]
    pers = [(l, r) for l, r in roles.items() if differ(approx(r[1]), approx(stay), pcm) is FALSE]
    if len(roles) != 2:
        ctx.undec(R, "lookahead", M.where, "%d counters" % len(roles))
        return
    ctx.check(R, "lookahead/counted", M.where, len(seen) == 1, "no counter counts exactly the valid records looked at")
    ctx.check(R, "lookahead/persistent", M.where, len(pers) == 1, "no counter counts exactly the valid records that stay beyond 80% of the jump")
    if len(seen) != 1 or len(pers) != 1:
        return
    (ls, s), (lp, q) = seen[0], pers[0]
    for nm, r in (("counted", s), ("persistent", q)):
        ctx.check(R, "lookahead/start/" + nm, M.where, r[3] is ZERO and prune(dd_and(pcm, r[2])) is FALSE, "a lookahead counter starts at %s" % short(showdd(r[3], 2)))
    want = dd_and((V(j) < V(w.n)).d, (V(s[0]) < 10).d)
    dom = dd_and(M.pc, dd_and((V(k) < V(w.n)).d, (V(k) >= 0).d))
    sb = I.load(M.back, ls, I.kinds.get(ls, "?"))
    if implies(dd_and(M.back.pc, (V(s[0]) < 10).d), dd_apply(lambda x: (V(x) < 10).d, sb))[0]:
        dom = dd_and(dom, (V(s[0]) < 10).d)     # what every iteration starts with
    d = differ(M.cond, want, dom)
    if d is not FALSE:
        # once three records stayed beyond, the answer no longer changes
        d = dd_or(prune(dd_and(dd_and(M.cond, dom), dd_not(want))),
                  prune(dd_and(dd_and(dd_and(want, dom), dd_not(M.cond)), (V(q[0]) < 3).d)))
    ctx.check(R, "lookahead/range", M.where, d is FALSE, "the lookahead goes on differently when " + short(witness(d)))
    for b in M.breaks:
        # left within an iteration: everything of this record is counted, and no further record could matter
        sv, qv = [I.load(b, l, I.kinds.get(l, "?")) for l in (ls, lp)]
        step = lambda v, h, c: differ(dd_apply(lambda x: t_sub(x, h), v), dd_ite(c, ONE, ZERO), b.pc)
        few = dd_apply(lambda x: (V(x) < 3).d, qv)
        d = dd_or(prune(dd_and(step(sv, s[0], approx(jvalid)), few)), step(qv, q[0], approx(stay)))
        more = dd_and(dd_apply(lambda x: (V(x) < 10).d, sv), (V(j) + 1 < V(w.n)).d)
        e = prune(dd_and(dd_and(b.pc, more), few))
        ctx.check(R, "lookahead/left", M.where, d is FALSE and e is FALSE, "the lookahead is left early when " + short(witness(d if d is not FALSE else e)))
    jump = dd_and(base, dd_or(up, down))
    exitv = I.load(M.after, lp, I.kinds.get(lp, "?"))
    want = dd_apply(lambda t: (V(t) >= 3).d, exitv)
    post = M.after.pc
    d = differ(w.keep, want, dd_and(jump, post))
    ctx.check(R, "persistent", L.where, d is FALSE, "a record that jumped is %s when %s" % ("kept or dropped wrongly", short(witness(d, 20), 900)))


def approx(d):
    """Decimal constants written as float or double literals read as the decimal number meant."""
    def f(t):
        if t.op != "poly":
            return None
        ch, acc = False, ZERO
        for m, c in t.args:
            r = Fraction(c).limit_denominator(1000)
            if r == c or abs(r - c) > abs(c) / 10**6:
                r = c
            else:
                ch = True
            x = num(r)
            for a, e in m:
                for _ in range(abs(e)):
                    x = t_mul(x, a) if e > 0 else t_fdiv(x, a)
            acc = t_add(acc, x)
        return acc if ch else None
    return subst_term(d, f)


# ----------------------------------------------------------- outlier context
def h06(ctx):
    R = "context"
    ctx.rule(R, "the last last_n outliers (all when 0) are marked, and the records from left before to right after each, clipped to the history, are listed; listing a "
                "record never unmarks an outlier")
    f = ctx.fn(NS + "GetOutlierIndicesWithContext", 0)
    if len(f.d["params"]) != 5:
        raise Anchor("GetOutlierIndicesWithContext(indices, size, left, right, last_n)")
    no = mkT("nout", nn=True, isint=True)
    size, left, right, lastn = [mkT(x, nn=True, isint=True) for x in ("size", "left", "right", "lastn")]

    def setup(I, st):
        I.store(st, (("OI",), "$n"), no, "u")
    I, st, v, rl = run(ctx, f, args=[interp.ptr((("OI",),)), size, left, right, lastn], setup=setup)
    if gaps(I):
        ctx.undec(R, "context", f.where, gaps(I)[0])
        return
    top = [L for L in I.ev if isinstance(L, interp.Loop)]
    if len(top) != 1 or len(list(loops_of(top[0].ev))) != 1:
        ctx.undec(R, "context", f.where, "loops")
        return
    L, M = top[0], next(iter(loops_of(top[0].ev)))
    # which outliers: the index of the outlier read in iteration k
    maps = [(e, stk) for e, stk, p in walk(I.ev) if e.kind == "map" and e.name in ("operator[]", "at")]
    mark = [(e, stk) for e, stk in maps if stk and stk[-1] is L]
    lst = [(e, stk) for e, stk in maps if stk and stk[-1] is M]
    if len(mark) != 1 or len(lst) != 1:
        ctx.undec(R, "context", f.where, "%d marks, %d listings" % (len(mark), len(lst)))
        return
    start = ite(dd_or((V(lastn) < 1).d, (V(no) <= V(lastn)).d), 0, V(no) - V(lastn))
    i = (start + V(L.kappa)).d
    e = mark[0][0]
    j = dd_apply(lambda x: leaf(("OI",), "[]", x), i)
    got = e.args[0]
    if mentions(got, lambda t: t.op == "mu"):
        ctx.undec(R, "context", e.where, "index marked %s" % short(showdd(got, 2)))
        return
    d = differ(L.cond, dd_apply(lambda x: t_lt(x, no), i), L.pc)
    ctx.check(R, "outliers", L.where, d is FALSE and not [b for b in L.breaks if b.pc is not FALSE], "the outliers visited are wrong when " + short(witness(d)))
    d = differ(L.pc, TRUE, (V(no) >= 1).d)
    ctx.check(R, "outliers/always", L.where, d is FALSE, "no outlier is visited when " + short(witness(d)))
    d = differ(got, j, body_pc(L))
    ctx.check(R, "marked", e.where, d is FALSE, "the record marked is %s when %s" % (short(showdd(got, 2)), short(witness(d))))
    mapc = interp.loc_of(e.obj)
    fin = dd_apply(lambda x: I.load(L.back, mapc + ("[]", mkT("key", x)), "b"), got)
    d = differ(fin, TRUE, L.back.pc)
    ctx.check(R, "marked/true", e.where, d is FALSE, "an outlier is not marked when " + short(witness(d)))
    # the records around it
    x, stk = lst[0]
    a = vmax(V(j) - left, 0)
    want = (a + V(M.kappa)).d
    dom = dd_apply(lambda t: (V(t) >= 0).d, j)
    und = dd_and(x.pc, dom)
    d = differ(x.args[0], want, und)
    ctx.check(R, "listed", x.where, d is FALSE, "the records listed around an outlier are %s when %s" % (short(showdd(x.args[0], 2)), short(witness(d))))
    d = differ(M.cond, dd_apply(lambda w, z: t_lt(w, z), want, vmin(V(j) + right + 1, size).d), dd_and(dd_and(M.pc, dom), (V(M.kappa) >= 0).d))
    ctx.check(R, "listed/range", M.where, d is FALSE and not [b for b in M.breaks if b.pc is not FALSE], "the context of an outlier is wrong when " + short(witness(d)))
    d = dd_or(differ(M.pc, body_pc(L), body_pc(L)), differ(x.pc, TRUE, body_pc(M)))
    ctx.check(R, "listed/always", M.where, d is FALSE, "the context of an outlier is not listed when " + short(witness(d)))
    y = mkT("key", mkT("y", nn=True, isint=True))
    h, b = I.load(M.head, mapc + ("[]", y), "b"), I.load(M.back, mapc + ("[]", y), "b")
    old = mkT("old")
    g = lambda t: atom_nz(old) if t.op == "nz" else (old if t.op == "ld" and t.args[1] and isinstance(t.args[1][-1], T) and t.args[1][-1].op == "key" else None)
    # whatever element it is, its value is the one it had
    d = differ(subst_term(b, g), subst_term(h, g), M.back.pc)
    ctx.check(R, "kept", M.where, d is FALSE, "listing a record changes its mark when " + short(witness(d)))


# --------------------------------------------------------------- timestamps
def h09(ctx):
    R = "ordered"
    ctx.rule(R, "the check fails exactly when some record is earlier than the record before it, looking at every consecutive pair")
    f = ctx.fn(NS + "CheckPriceHistoryTimestamps", 0)
    n = nrec()

    def setup(I, st):
        I.store(st, (H, "$n"), n, "u")
    I, st, v, rl = run(ctx, f, args=[HP], setup=setup)
    if gaps(I):
        ctx.undec(R, "ordered", f.where, gaps(I)[0])
        return
    Ls = list(loops_of(I.ev))
    if len(Ls) != 1:
        ctx.undec(R, "ordered", f.where, "%d loops" % len(Ls))
        return
    L = Ls[0]
    go = unroll(I, L.back.pc)
    if mentions(go, lambda t: t.op == "mu"):
        ctx.undec(R, "ordered", L.where, short(showdd(go, 2)))
        return
    # which pair an iteration looks at: forwards or backwards, with or without a first record that has no predecessor
    k = V(L.kappa)
    cond, dom = unroll(I, L.cond), dd_and(L.pc, dd_and((k >= 0).d, (V(n) >= 1).d))
    body = unroll(I, body_pc(L))
    wrong = None
    for q, all_ in ((k + 1, k + 1 < V(n)), (k, k < V(n)), (V(n) - 1 - k, k + 1 < V(n)), (V(n) - 1 - k, k < V(n))):
        q = single(q.d)
        p = t_sub(q, ONE)
        bad = (V(hrec(q, "timestamp_sec")) < V(hrec(p, "timestamp_sec"))).d
        inside = dd_and(body, dd_and((V(q) >= 1).d, (V(q) < V(n)).d))
        d = differ(go, dd_not(bad), inside)
        z = ZERO if t_sub(q, L.kappa) in (ZERO, ONE) else t_sub(n, ONE)
        at0 = lambda x: subst_term(x, lambda t: z if t is L.kappa else None)
        e = differ(at0(go), TRUE, dd_and(dd_and(at0(body), (V(n) >= 1).d), (V(at0(q)) < 1).d))
        c = differ(cond, all_.d, dom)
        if d is FALSE and e is FALSE and c is FALSE:
            for inst in ("pair", "every-pair"):
                ctx.ok(R, inst, L.where)
            return
        w = (0 if d is FALSE else 1, 0 if e is FALSE else 1, 0 if c is FALSE else 1)
        if wrong is None or w < wrong[0]:
            wrong = (w, "a pair of records is judged wrongly when " + short(witness(d)) if d is not FALSE
                     else "the pairs looked at are not all consecutive pairs: " + short(witness(c if c is not FALSE else e)))
    if not isinstance(v, (T, N)) or mentions(v, lambda t: t.op == "mu"):
        ctx.undec(R, "ordered", L.where, "the result is %s" % short(showdd(v, 2)))
        return
    idx = {t.args[1][1] for t in term_subterms(go) if t.op == "ld" and t.args[0] is mkT("obj", H) and len(t.args[1]) == 3}
    if any(t.op in ("unk", "ev", "mu", "ld", "uninit") for i in idx if isinstance(i, T) for t in term_subterms(i) if t is not n and n not in term_subterms(t)):
        ctx.undec(R, "ordered", L.where, "records looked at: %s" % [show(i) for i in idx if isinstance(i, T)])
    else:
        ctx.bad(R, "every-pair", L.where, wrong[1])


PROPERTIES = {"H01": [h01], "H02": [h02], "H03": [h03], "H04": [h04], "H05": [h05], "H06": [h06], "H07": [h07], "H08": [h08], "H09": [h09]}
