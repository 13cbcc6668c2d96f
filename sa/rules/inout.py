"""Readers and writers of the converter, delimited messages, CSV rows."""
from ..util import *
from ..runner import Anchor
from .. import interp

RECORDS = ("PriceRecord", "OhlcTick", "SideInputRecord")
RET = ("ret", 0)


def vec_of(t, pre="absl::StatusOr<"):
    """Record type of absl::StatusOr<std::vector<trader::X ...>>."""
    t = t.replace(" ", "")
    for r in RECORDS:
        if t.startswith("%sstd::vector<trader::%s" % (pre, r)):
            return r
    return None


def readers(ctx):
    """Functions of the converter that turn a file into a history: (function, record type)."""
    P = ctx.P()
    out = []
    for q, fs in sorted(P.byqn.items()):
        for f in fs:
            if f.d.get("file") != "convert.cc" or not isinstance(f.d.get("body"), dict) or f.d.get("lambda") or "operator()" in q:
                continue
            r = vec_of(f.d.get("ret", ""))
            ps = [p["t"] for p in f.d["params"]]
            if r and len(ps) == 3 and "basic_string" in ps[0]:
                out.append((f, r))
    return out


COLUMNS = {"PriceRecord": ("timestamp_sec", "price", "volume"), "SideInputRecord": ("timestamp_sec", "signal"),
           "OhlcTick": ("timestamp_sec", "open", "high", "low", "close", "volume")}


def fields_of(ctx, rec):
    """Field names of a record in the order of their numbers (those a row carries)."""
    m = message(ctx, rec)["fields"]
    return [x for x in sorted(m, key=lambda x: m[x]["no"]) if x in COLUMNS.get(rec, m)]


class Read:
    """One pass over a reader."""

    def __init__(self, ctx, f, poison=(), like=None):
        self.S, self.E = mkT("period_start", isint=True), mkT("period_end", isint=True)
        budget()
        I = interp.Interp(ctx.P())
        I.poison = frozenset(poison)
        st = interp.St()
        self.st, self.v, rl = I.run(f, args=[None, self.S, self.E], st=st)
        ctx.analysed(I)
        self.I, self.f = I, f
        self.gap = gaps(I)
        self.L = self.C = None
        # the container of records: what is appended to at the top of a loop and returned
        for L, stack in loops_with_parents(I.ev):
            if stack:
                continue
            for loc in L.mods:
                if loc[-1] == "$n" and "[]" not in loc and L.back.pc is not FALSE:
                    hd, bk = I.load(L.head, loc, "u"), I.load(L.back, loc, "u")
                    if any(t_sub(y, x) is ONE for x in leaves(hd) for y in leaves(bk)):
                        self.L, self.C = L, loc[:-1]
        if like is not None and self.L is None:
            # nothing is appended: the loop at the same place
            self.L, self.C = next((L for L, s in loops_with_parents(I.ev) if not s and L.where == like.L.where), None), like.C
            self.app = FALSE
            return
        if self.L is None:
            return
        L, C = self.L, self.C
        self.hd = I.load(L.head, C + ("$n",), "u")
        bk = I.load(L.back, C + ("$n",), "u")
        plus = dd_apply(lambda x, y: TRUE if t_sub(x, y) is ONE else FALSE, bk, self.hd)
        same = dd_apply(lambda x, y: TRUE if x is y else FALSE, bk, self.hd)
        self.app = dd_and(L.back.pc, plus)
        self.skip = dd_and(L.back.pc, same)
        self.odd = dd_and(L.back.pc, dd_not(dd_or(plus, same)))
        self.status = I.load(self.st, (RET, "$status"), "?") if not isinstance(self.v, (T, N)) else self.v
        self.ok = dd_apply(lambda t: TRUE if t.op == "status_ok" else FALSE, self.status)
        self.err = dd_apply(lambda t: TRUE if t.op == "status_err" else FALSE, self.status)
        # what one iteration reads
        self.lines = [e for e, s, pos in walk(I.ev) if e.kind == "in" and e.name == "getline" and s and s[-1] is L]
        self.scans = [e for e, s, pos in walk(I.ev) if e.name == "sscanf" and s and s[-1] is L]
        self.reads = [(e, s) for e, s, pos in walk(I.ev) if e.kind == "in" and e.name == ">>" and s and s[0] is L]
        self.parses = [e for e, s, pos in walk(I.ev) if e.name.endswith("ParseDelimitedFromZeroCopyStream") and s and s[-1] is L]

    def field(self, name, kind="f"):
        return self.I.load(self.L.back, self.C + ("[]", single(self.hd), name), kind)


def column(t):
    """Position of a parsed value in its row, or the field name it was parsed as."""
    if t.op == "scan":
        return t.args[1]
    if t.op == "ld" and t.args[0].op == "out" and len(t.args[1]) == 1:
        return t.args[1][0]
    return None


def entry_cond(R, f):
    """The reader got past opening the file."""
    o = [t for t in term_subterms(R.status) if t.op == "opened"] + [t for t in term_subterms(R.L.pc) if t.op == "opened"]
    return atom_nz(o[0]) if o else None


def each_reader(ctx, R, want=None):
    for f, rec in readers(ctx):
        if want and rec not in want:
            continue
        r = Read(ctx, f)
        nm = "%s@%s" % (rec, "proto" if r.parses else "csv")
        if r.gap or r.L is None or not isinstance(r.hd, T):
            ctx.undec(R, nm, f.where, r.gap[0] if r.gap else "no loop that collects the records")
            continue
        yield f, rec, r, nm


def carried(r):
    """Carried variables of the reading loop that hold the timestamp of the last accepted record."""
    out = []
    ts = r.field("timestamp_sec", "i")
    for loc in r.L.mods:
        kd = r.I.kinds.get(loc, "?")
        if len(loc) != 1 or kd not in "iu":
            continue
        hd, bk, en = r.I.load(r.L.head, loc, kd), r.I.load(r.L.back, loc, kd), r.I.load(r.L.entry, loc, kd)
        if differ(bk, ts, r.app) is FALSE and differ(bk, hd, r.skip) is FALSE and isinstance(en, T) and en is ZERO:
            out.append(hd)
    return out


def ordered(r, strict):
    """The accepted record is not before the previous accepted one."""
    ts = V(r.field("timestamp_sec", "i"))
    cands = carried(r)
    prev = r.I.load(r.L.head, r.C + ("[]", t_sub(single(r.hd), ONE), "timestamp_sec"), "i")
    goals = [((ts > m) if strict else (ts >= m)).d for m in cands]
    goals.append(dd_or((V(r.hd) < 1).d, ((ts > prev) if strict else (ts >= prev)).d))
    last = None
    for g in goals:
        ok, last = implies(r.app, g)
        if ok:
            return True, None
    return False, last


def f01(ctx):
    R = "accepted"
    ctx.rule(R, "every record appended by a reader lies in [start, end) (each bound only if positive), has a positive timestamp not before the previous one, and valid "
                "prices and volume; the same pass with a parsed value assumed NaN never appends; a record that is read and not appended is before the start")
    n = 0
    for f, rec, r, nm in each_reader(ctx, R):
        n += 1
        fs = fields_of(ctx, rec)
        ts = V(r.field("timestamp_sec", "i"))
        ctx.check(R, nm + "/once", r.L.where, prune(r.odd) is FALSE, "a row adds more than one record")
        for inst, goal, why in (
                ("from-start", dd_or((V(r.S) <= 0).d, (ts >= r.S).d), "a record before the start of the period is accepted"),
                ("to-end", dd_or((V(r.E) <= 0).d, (ts < r.E).d), "a record at or after the end of the period is accepted"),
                ("positive-time", (ts > 0).d, "a record with a timestamp that is not positive is accepted")):
            ok, d = implies(r.app, goal)
            ctx.check(R, "%s/%s" % (nm, inst), r.L.where, ok, "%s: %s" % (why, short(witness(d)) if d is not FALSE else ""))
        ok, d = ordered(r, rec == "SideInputRecord")
        ctx.check(R, nm + "/ordered", r.L.where, ok, "a record out of time order is accepted: %s" % (short(witness(d)) if d else ""))
        ok, d = implies(r.skip, dd_and((V(r.S) > 0).d, (rowtime(r) < r.S).d))
        ctx.check(R, nm + "/no-loss", r.L.where, ok, "a row is dropped without an error: %s" % (short(witness(d)) if d is not FALSE else ""))
        for b in r.L.breaks:
            c = dd_and(b.pc, row_ok(r))
            ok, d = implies(c, dd_and((V(r.E) > 0).d, (rowtime(r) >= r.E).d))
            ctx.check(R, nm + "/no-early-end", r.L.where, ok, "reading stops before the end of the period: %s" % (short(witness(d)) if d is not FALSE else ""))
            nb = r.I.load(b, r.C + ("$n",), "u")
            ctx.check(R, nm + "/no-partial", r.L.where, differ(nb, r.hd, b.pc) is FALSE, "the record at the end of the period stays in the history")
        # values
        if rec != "SideInputRecord":
            x = {k: V(r.field(k)) for k in fs}
            goals = {}
            if rec == "PriceRecord":
                goals = {"price": x["price"] > 0, "volume": x["volume"] >= 0}
            else:
                for k in ("open", "high", "low", "close"):
                    goals[k + "-positive"] = x[k] > 0
                for k in ("open", "high", "close"):
                    goals["low-below-" + k] = x["low"] <= x[k]
                for k in ("open", "low", "close"):
                    goals["high-above-" + k] = x["high"] >= x[k]
                goals["volume"] = x["volume"] >= 0
            for k, g in sorted(goals.items()):
                ok, d = implies(r.app, g.d)
                ctx.check(R, "%s/valid/%s" % (nm, k), r.L.where, ok, "a record that is not valid is accepted: %s" % (short(witness(d)) if d is not FALSE else ""))
            for k in fs[1:]:
                c = {column(t) for t in leaves(under(r.field(k), r.app))}
                if len(c) != 1 or None in c:
                    ctx.undec(R, "%s/not-a-number/%s" % (nm, k), r.L.where, "not a parsed value")
                    continue
                c = c.pop()
                p = [(e.uid, c) for e in r.scans] if isinstance(c, int) else [c]
                r2 = Read(ctx, f, p, r)
                if r2.L is None or r2.gap:
                    ctx.undec(R, "%s/not-a-number/%s" % (nm, k), r.L.where, "pass failed")
                    continue
                if not r2.I.nan_seen:
                    ctx.undec(R, "%s/not-a-number/%s" % (nm, k), r.L.where, "the parsed value was not found in the second pass")
                    continue
                d = prune(r2.app)
                ctx.check(R, "%s/not-a-number/%s" % (nm, k), r.L.where, d is FALSE, "a record whose %s is not a number is accepted" % k)
    if not n:
        ctx.undec(R, "readers", "convert.cc", "no reader found")


def rowtime(r):
    """The timestamp of the row an iteration looks at."""
    c = {t for t in leaves(under(r.field("timestamp_sec", "i"), r.app))}
    return V(c.pop()) if len(c) == 1 else V(mkT("?"))


def row_ok(r):
    """The iteration has read a row."""
    if r.parses:
        return dd_and(*[atom_nz(e.res) if isinstance(e.res, T) else e.res for e in r.parses]) if len(r.parses) > 1 else (
            atom_nz(r.parses[0].res) if isinstance(r.parses[0].res, T) else r.parses[0].res)
    c = TRUE
    for e in r.lines:
        c = dd_and(c, atom_nz(mkT("readok", e.uid)))
    return c


CONV = {"i64": ("%lld", "%ld"), "i32": ("%d", "%i"), "f32": ("%f", "%e", "%g"), "f64": ("%lf", "%le", "%lg")}


def conversions(fmt):
    """The conversions of a scan format and what separates them."""
    import re
    cs = re.findall(r"%[0-9]*(?:ll|l|h|hh|L|j|z)?[a-zA-Z]", fmt)
    rest = re.split(r"%[0-9]*(?:ll|l|h|hh|L|j|z)?[a-zA-Z]", fmt)
    return cs, rest


def f02(ctx):
    R = "rows"
    ctx.rule(R, "a row is accepted or dropped only after all its columns were converted; every field of the appended record is the value converted from its own column in this "
                "iteration; a reader returns success only if the file was opened and reading ended at the end of the file or at the first row after the period")
    n = 0
    for f, rec, r, nm in each_reader(ctx, R):
        n += 1
        fs = fields_of(ctx, rec)
        I, L = r.I, r.L
        # fields
        for j, k in enumerate(fs):
            if rec == "SideInputRecord" and k == "signal":
                continue
            v = under(r.field(k, "i" if k == "timestamp_sec" else "f"), r.app)
            if r.parses:
                good = isinstance(v, T) and column(v) == k
            elif r.scans:
                good = isinstance(v, T) and column(v) == j
            elif r.reads:
                good = isinstance(v, T) and v.op == "read" and v.args[0] is r.reads[0][0].uid and j == 0
            else:
                ctx.undec(R, nm + "/" + k, L.where, "no conversion found")
                continue
            ctx.check(R, "%s/field/%s" % (nm, k), L.where, good, "the appended record's %s is %s" % (k, short(showdd(v, 3))))
        # conversion format
        for e in r.scans:
            fm = single(e.args[1])
            if fm is None or fm.op != "str":
                ctx.undec(R, nm + "/format", e.where, "format is not a literal")
                continue
            cs, rest = conversions(fm.args[0])
            ctx.check(R, nm + "/format/columns", e.where, len(cs) == len(fs) and rest[1:-1] == [","] * (len(fs) - 1) and rest[0] == "",
                      "the scanned format %r does not have %d comma separated columns" % (fm.args[0], len(fs)))
            ts = [p["t"] for p in (e.node or {}).get("args", [])] if isinstance(getattr(e, "node", None), dict) else []
        # conversion before use
        for e in r.scans:
            full = (V(e.res).eq(len(fs))).d if isinstance(e.res, T) else FALSE
            full = dd_or(full, (V(e.res) >= len(fs)).d)
            for what, c in [("accepted", r.app), ("dropped", r.skip)] + [("last", dd_and(b.pc, row_ok(r))) for b in L.breaks]:
                ok, d = implies(c, full)
                ctx.check(R, "%s/converted/%s" % (nm, what), e.where, ok, "a row whose columns were not all converted is %s" % what)
        if rec == "SideInputRecord" and r.reads:
            signals(ctx, R, nm, r)
        # success
        opened = entry_cond(r, f)
        if opened is None:
            ctx.undec(R, nm + "/opened", f.where, "no open")
            continue
        ok, d = implies(r.ok, opened)
        ctx.check(R, nm + "/opened", f.where, ok, "success is returned although the file could not be opened")
        end = dd_and((V(r.E) > 0).d, (rowtime(r) >= r.E).d)
        ok, d = implies(dd_and(r.ok, row_ok(r)), end)
        ctx.check(R, nm + "/complete", f.where, ok, "success is returned in the middle of the file: %s" % (short(witness(d)) if d is not FALSE else ""))
        for e in r.lines:
            rd, bad = atom_nz(mkT("readok", e.uid)), atom_nz(mkT("iobad", e.uid))
            ok, d = implies(dd_and(r.ok, dd_not(rd)), dd_not(bad))
            ctx.check(R, nm + "/read-error", e.where, ok, "success is returned although reading the file failed")
            ok, d = implies(dd_and(opened, dd_and(dd_not(rd), dd_not(bad))), r.ok)
            ctx.check(R, nm + "/end", e.where, ok, "an error is returned at the end of the file")
        neither = dd_not(dd_or(r.ok, r.err))
        if prune(neither) is not FALSE:
            ctx.undec(R, nm + "/status", f.where, "a returned status is not understood: %s" % short(witness(prune(neither))))
        # what is returned
        x = under(I.load(r.st, (RET, "$v", "$n"), "u"), r.ok)
        good = all(t is single(r.hd) for t in leaves(x))
        ctx.check(R, nm + "/returned/all", f.where, good, "the history returned has %s records" % short(showdd(x, 2)))
        i = mkT("i", nn=True, isint=True)
        for k in fs:
            if k == "signal":
                continue
            x = under(I.load(r.st, (RET, "$v", "[]", i, k), "f"), dd_and(r.ok, (V(i) < V(r.hd)).d))
            y = I.load(L.head, r.C + ("[]", i, k), "f")
            bad = [t for t in leaves(x) if t is not single(y)]
            ctx.check(R, "%s/returned/%s" % (nm, k), f.where, not bad, "record i of the history returned has %s = %s" % (k, short(showdd(x, 2))))
    if not n:
        ctx.undec(R, "readers", "convert.cc", "no reader found")


def signals(ctx, R, nm, r):
    """The signals of a side input row."""
    I, L, C = r.I, r.L, r.C
    S = C + ("[]", single(r.hd), "signal")
    sites = [a for a in append_sites(I, S)]
    if len(sites) == 1 and len(r.reads) == 2 and not r.reads[0][1][-1] is sites[0].L:
        # the loop has the only conversion of signals: every other signal is not one
        n0 = dd_and(sites[0].L.entry.pc, dd_apply(lambda t: FALSE if t is ZERO else TRUE, I.load(sites[0].L.entry, S + ("$n",), "u")))
        ctx.check(R, nm + "/signals/fresh", sites[0].L.where, prune(n0) is FALSE, "a row has signals that were not converted from it when %s" % short(witness(prune(n0))))
        if prune(n0) is not FALSE:
            return
    if len(sites) != 1 or not isinstance(sites[0].hd, T):
        ctx.undec(R, nm + "/signals", L.where, "%d loops append signals" % len(sites))
        return
    a = sites[0]
    rd = [e for e, s in r.reads if s[-1] is a.L]
    if len(rd) != 1 or len(r.reads) != 2:
        ctx.undec(R, nm + "/signals", a.L.where, "%d conversions" % len(r.reads))
        return
    ok1 = atom_nz(mkT("readok", rd[0].uid))
    ok0 = atom_nz(mkT("readok", r.reads[0][0].uid))
    for what, c in [("accepted", r.app), ("dropped", r.skip)] + [("last", dd_and(b.pc, row_ok(r))) for b in L.breaks]:
        g, d = implies(c, ok0)
        ctx.check(R, "%s/converted/%s" % (nm, what), L.where, g, "a row whose timestamp was not converted is %s" % what)
    n0 = I.load(a.L.entry, S + ("$n",), "u")
    ctx.check(R, nm + "/signals/fresh", a.L.where, single(n0) is ZERO, "signals of another row are kept")
    x = single(under(I.load(a.L.back, S + ("[]", a.hd), "f"), a.pc))
    good = a.odd is FALSE and differ(a.pc, a.L.back.pc, a.L.back.pc) is FALSE and x is not None and x.op == "read" and x.args[0] is rd[0].uid
    ctx.check(R, nm + "/signals/each", a.L.where, good, "a converted signal is not appended once: " + (show(x) if x is not None else "?"))
    at = atom_nz(mkT("ateof", rd[0].uid))
    brk = [b for b in a.L.breaks if b.pc is not FALSE]
    # the stream has not failed when a conversion is tried: it would have ended the loop
    inv = TRUE
    for loc in a.L.mods:
        if loc[-1] == "$ok" and I.load(a.L.entry, loc, "b") is not FALSE and implies(a.L.back.pc, I.load(a.L.back, loc, "b"))[0] \
                and implies(a.L.entry.pc, I.load(a.L.entry, loc, "b"))[0]:
            inv = dd_and(inv, I.load(a.L.head, loc, "b"))
    ok, d = implies(dd_and(r.app, inv), dd_and(at, dd_not(ok1)))
    if brk:
        ctx.undec(R, nm + "/signals/all", a.L.where, "conversion loop with breaks")
    else:
        ctx.check(R, nm + "/signals/all", a.L.where, ok, "a row with a signal that cannot be converted is accepted")
    # the number of signals
    k = [l for l in I.loops.values() if l is a.L][0].kappa
    n = under(I.load(L.back, S + ("$n",), "u"), r.app)
    n = single(n)
    if n is None:
        ctx.undec(R, nm + "/signals/number", L.where, "number of signals")
        return
    ok, d = implies(r.app, (V(n) >= 1).d)
    ctx.check(R, nm + "/signals/some", L.where, ok, "a row without signals is accepted")
    goals = [dd_or((V(r.hd) < 1).d, (V(I.load(L.head, C + ("[]", ZERO, "signal", "$n"), "u")).eq(n)).d)]
    known = carried = False
    for loc in L.mods:
        kd = I.kinds.get(loc, "?")
        if len(loc) == 1 and kd in "iub":
            hd, bk, en = I.load(L.head, loc, kd), I.load(L.back, loc, kd), I.load(L.entry, loc, kd)
            h = single(hd)
            if h is None or kd == "b":
                carried = carried or mentions(r.app, lambda t: t.op == "mu" and t.args[1] == loc)
                continue
            # the count so far: 0 before the first row and never negative
            pos = (V(hd) >= 0).d
            want = ite(V(hd).eq(0), n, V(hd)).d
            app = dd_and(r.app, pos)
            if single(en) is ZERO and (differ(bk, want, app) is FALSE or differ(bk, n, app) is FALSE) and differ(bk, hd, r.skip) is FALSE:
                goals.append(dd_or(dd_or(dd_not(pos), (V(r.hd) < 1).d), dd_or((V(hd).eq(0)).d, (V(hd).eq(n)).d)))
                known = True
            else:
                carried = carried or mentions(r.app, lambda t: t is h)
    good = any(implies(r.app, g)[0] for g in goals)
    if not good and carried and not known:
        ctx.undec(R, nm + "/signals/same-number", L.where, "what the row's signal count is compared with")
        return
    ctx.check(R, nm + "/signals/same-number", L.where, good, "a row with another number of signals than the first one is accepted")


def instances(ctx, name, pick):
    """Instantiations of a function template that satisfy pick(parameter types), one per record type."""
    out = []
    for f in ctx.fn("trader::" + name):
        ps = [p["t"] for p in f.d["params"]]
        if pick(ps):
            rec = next((r for r in RECORDS if any("trader::" + r in p for p in ps)), None)
            out.append((f, rec))
    return out


def opens(I):
    return [e for e, s, pos in walk(I.ev) if e.kind == "ctor" and "fstream" in e.name or (e.kind == "call" and e.name.endswith("fstream::open"))]


def bits(t, name=""):
    if t is None or t.op != "num":
        return None
    return int(t.args[0]) | (IN if "ifstream" in name else OUT if "ofstream" in name else 0)


IN, OUT, TRUNC, BIN, APP, ATE = 8, 16, 32, 4, 1, 2


def wraps(I, p, cls, evs):
    """The stream object p is constructed on (for the wrapper streams of protobuf)."""
    for e in evs:
        if e.kind == "ctor" and e.name.endswith(cls) and e.obj is p:
            return e
    return None


def f05(ctx):
    R = "read"
    ctx.rule(R, "reading delimited messages: every parsed message is handed to the reader once, parsed into an empty message; reading goes on only after kContinue; success is "
                "returned only after kBreak or at a clean end of a stream without decompression or input error; a reader error is an error")
    cont = brk = None
    e = ctx.P().enums.get("trader::ReaderSignal") if hasattr(ctx.P(), "enums") else None
    for f, rec in instances(ctx, "ReadDelimitedMessagesFromFile", lambda ps: len(ps) == 2 and "function" in ps[1]):
        I, st, v, rl = run(ctx, f)
        nm = rec or f.where
        if gaps(I):
            ctx.undec(R, nm, f.where, gaps(I)[0])
            continue
        evs = [e for e, s, pos in walk(I.ev)]
        ps = [(e, s) for e, s, pos in walk(I.ev) if e.name.endswith("ParseDelimitedFromZeroCopyStream")]
        cb = [(e, s) for e, s, pos in walk(I.ev) if e.kind == "callback"]
        if len(ps) != 1 or len(cb) != 1 or not ps[0][1] or ps[0][1] != cb[0][1]:
            ctx.undec(R, nm, f.where, "%d parse and %d reader call sites" % (len(ps), len(cb)))
            continue
        P, K, L = ps[0][0], cb[0][0], ps[0][1][-1]
        parsed = atom_nz(P.res)
        # the message
        msg = single(P.args[0])
        ctx.check(R, nm + "/every", K.where, differ(K.pc, dd_and(P.pc, parsed), body_pc(L)) is FALSE, "a parsed message is not handed to the reader: it is when " +
                  short(witness(prune(K.pc))))
        ctx.check(R, nm + "/handed", K.where, K.args and single(K.args[0]) is msg, "the reader is handed another message")
        if msg is not None and msg.op == "ptr" and rec:
            loc = msg.args[0]
            for k, d in sorted(message(ctx, rec)["fields"].items()):
                x = I.load(P.st, loc + ((k, "$n") if d["label"] == "repeated" else (k,)), "u" if d["label"] == "repeated" else "f")
                ctx.check(R, "%s/empty/%s" % (nm, k), P.where, single(x) is ZERO, "a message is parsed on top of the previous one: %s is %s before" % (k, short(showdd(x, 2))))
        # success
        ok = dd_apply(lambda t: TRUE if t.op == "status_ok" else FALSE, v)
        err = dd_apply(lambda t: TRUE if t.op == "status_err" else FALSE, v)
        if prune(dd_not(dd_or(ok, err))) is not FALSE:
            ctx.undec(R, nm + "/status", f.where, "a returned status is not understood")
        kb = [t for t in term_subterms(v) if t.op == "ret" and t.args[0] == "callback"]
        sub = list(term_subterms(v)) + list(term_subterms(L.back.pc))
        isok = [t for t in sub if t.op == "isok"]
        eof = [t for t in sub if t.op == "out" and t.args[0] is P.uid]
        zl = [e for e in evs if e.name.endswith("ZlibErrorCode")]
        op = [t for t in sub if t.op == "opened"]
        if not isok or not op or len(eof) != 1:
            ctx.undec(R, nm + "/conditions", f.where, "status conditions")
            continue
        rok, clean, opened = atom_nz(isok[0]), atom_nz(eof[0]), atom_nz(op[0])
        okp, d = implies(ok, opened)
        ctx.check(R, nm + "/opened", f.where, okp, "success is returned although the file could not be opened")
        okp, d = implies(dd_and(ok, dd_not(parsed)), clean)
        ctx.check(R, nm + "/clean", f.where, okp, "success is returned although a message could not be parsed")
        if zl:
            z = V(zl[0].res)
            okp, d = implies(dd_and(ok, dd_not(parsed)), (z >= 0).d)
        else:
            okp = not any(e.name.endswith("GzipInputStream") for e in evs)
        ctx.check(R, nm + "/decompression", f.where, okp, "success is returned although decompression failed")
        bad = [t for t in term_subterms(v) if t.op == "iobad"]
        okp, d = implies(dd_and(ok, dd_not(parsed)), dd_not(atom_nz(bad[0])) if bad else FALSE)
        ctx.check(R, nm + "/input-error", f.where, okp, "success is returned although reading the file failed")
        good = dd_and(dd_and(opened, dd_not(parsed)), clean)
        if zl:
            good = dd_and(good, (V(zl[0].res) >= 0).d)
        for b in bad:
            good = dd_and(good, dd_not(atom_nz(b)))
        okp, d = implies(good, ok)
        ctx.check(R, nm + "/end", f.where, okp, "an error is returned at the clean end of the stream")
        okp, d = implies(dd_and(ok, parsed), rok)
        ctx.check(R, nm + "/reader-error", f.where, okp, "success is returned although the reader failed")
        okp, d = implies(L.back.pc, dd_and(parsed, rok))
        ctx.check(R, nm + "/goes-on", L.where, okp, "reading goes on after a message that could not be parsed or was refused by the reader")
        # kContinue (0) and kBreak (1)
        sig = [t for t in sub if t.op == "ld" and t.args[0].op == "ret" and t.args[1] == ("$v",)]
        if len(set(sig)) != 1:
            ctx.undec(R, nm + "/signal", f.where, "the reader's signal")
        else:
            x = V(sig[0])
            okp, d = implies(dd_and(L.back.pc, dd_or(x.eq(0).d, x.eq(1).d)), x.eq(0).d)
            ctx.check(R, nm + "/stops", L.where, okp, "reading goes on after kBreak")
            okp, d = implies(dd_and(dd_and(body_pc(L), dd_and(parsed, rok)), x.eq(0).d), L.back.pc)
            ctx.check(R, nm + "/continues", L.where, okp, "reading stops after kContinue")
        # the file
        fs = opens(I)
        for e in fs:
            ctx.check(R, nm + "/file", e.where, e.args and single(e.args[0]) is leaf(proot(f, 0)), "another file is opened")
            if len(e.args) > 1:
                b = bits(single(e.args[1]), e.name)
                ctx.check(R, nm + "/mode", e.where, b is not None and b & IN and b & BIN and not b & (TRUNC | APP | OUT), "the file is opened with mode %s" % b)
    R2 = "collect"
    ctx.rule(R2, "reading into a vector appends every message read, in order, with all its fields, and returns the status of the reading")
    for f, rec in instances(ctx, "ReadDelimitedMessagesFromFile", lambda ps: len(ps) == 2 and "vector" in ps[1]):
        I, st, v, rl = run(ctx, f)
        nm = rec or f.where
        if gaps(I):
            ctx.undec(R2, nm, f.where, gaps(I)[0])
            continue
        C = (proot(f, 1),)
        sites = append_sites(I, C)
        ps = [(e, s) for e, s, pos in walk(I.ev) if e.name.endswith("ParseDelimitedFromZeroCopyStream")]
        if len(sites) != 1 or len(ps) != 1 or not isinstance(sites[0].hd, T) or sites[0].L is not ps[0][1][-1]:
            ctx.undec(R2, nm, f.where, "%d append sites" % len(sites))
            continue
        a, P = sites[0], ps[0][0]
        ctx.check(R2, nm + "/each", a.L.where, a.odd is FALSE and differ(a.pc, a.L.back.pc, a.L.back.pc) is FALSE, "a message is not appended once")
        okp, d = implies(dd_and(body_pc(a.L), atom_nz(P.res)), a.L.back.pc)
        ctx.check(R2, nm + "/all", a.L.where, okp, "reading stops at a message")
        n0 = I.load(a.L.entry, C + ("$n",), "u")
        msg = single(P.args[0])
        for k, d in sorted(message(ctx, rec)["fields"].items()):
            suf = (k, "[]", mkT("j", nn=True, isint=True)) if d["label"] == "repeated" else (k,)
            x = single(I.load(a.L.back, C + ("[]", a.hd) + suf, "f"))
            good = x is not None and x.op == "ld" and x.args[0].op == "out" and x.args[0].args[0] is P.uid and x.args[1] == suf
            ctx.check(R2, "%s/field/%s" % (nm, k), a.L.where, good, "%s of the appended message is %s" % (k, show(x) if x is not None else "?"))


def f04(ctx):
    R = "written"
    ctx.rule(R, "writing delimited messages: every element of the range is serialized once and in order into one compressed stream on the file opened for truncation; success "
                "is returned only if the file was opened, every message was serialized, the compressed stream was finished and the file was closed without error, in that order")
    for f, rec in instances(ctx, "WriteDelimitedMessagesToFile", lambda ps: len(ps) == 4):
        nm = rec or f.where
        a, b = mkT("first", isint=True), mkT("last", isint=True)
        I, st, v, rl = run(ctx, f)
        if gaps(I):
            ctx.undec(R, nm, f.where, gaps(I)[0])
            continue
        evs = [e for e, s, pos in walk(I.ev)]
        ser = [(e, s) for e, s, pos in walk(I.ev) if e.name.endswith("SerializeDelimitedToZeroCopyStream")]
        if len(ser) != 1 or len(ser[0][1]) != 1:
            ctx.undec(R, nm, f.where, "%d serialization sites" % len(ser))
            continue
        W, L = ser[0][0], ser[0][1][-1]
        wrote = atom_nz(W.res)
        ok = dd_apply(lambda t: TRUE if t.op == "status_ok" else FALSE, v)
        err = dd_apply(lambda t: TRUE if t.op == "status_err" else FALSE, v)
        if prune(dd_not(dd_or(ok, err))) is not FALSE:
            ctx.undec(R, nm + "/status", f.where, "a returned status is not understood")
        # every element once, in order
        ctx.check(R, nm + "/every", W.where, differ(W.pc, body_pc(L), body_pc(L)) is FALSE, "an element is not serialized when " + short(witness(prune(dd_and(body_pc(L), dd_not(W.pc))))))
        m = single(W.args[0])
        cur = [loc for loc in L.mods if m is not None and any(t.op == "mu" and t.args[1] == loc for t in term_subterms(m))]
        if len(cur) != 1:
            ctx.undec(R, nm + "/order", W.where, "the element serialized is " + (show(m) if m is not None else "?"))
        else:
            kd = I.kinds.get(cur[0], "?")
            hd, bk, en = (I.load(s, cur[0], kd) for s in (L.head, L.back, L.entry))
            step = dd_apply(lambda x, y: TRUE if t_sub(x, y) is ONE else FALSE, _ix(bk), _ix(hd)) if isinstance(bk, (T, N)) else FALSE
            ctx.check(R, nm + "/step", L.where, differ(step, TRUE, L.back.pc) is FALSE, "the next element is " + short(showdd(bk, 2)))
            first = single(_ix(en))
            ctx.check(R, nm + "/first", L.where, first is not None and first is _par(f, 0), "writing starts at " + short(showdd(en, 2)))
            want = dd_not(t_eq(single(_ix(hd)), _par(f, 1)))
            lim = differ(L.cond, want, L.pc)
            inr = prune(dd_and(lim, dd_not(t_lt(_par(f, 1), single(_ix(hd))))))
            ctx.check(R, nm + "/last", L.where, inr is FALSE, "the loop runs while " + short(showdd(L.cond, 3)))
        # success
        okp, d = implies(L.back.pc, wrote)
        ctx.check(R, nm + "/goes-on", L.where, okp, "writing goes on after a message that could not be serialized")
        okp, d = implies(dd_and(body_pc(L), wrote), L.back.pc)
        ctx.check(R, nm + "/complete", L.where, okp, "writing stops before all messages are written: " + short(witness(d)))
        sub = term_subterms(v)
        op = [t for t in sub if t.op == "opened"]
        okp, d = implies(ok, atom_nz(op[0])) if op else (False, TRUE)
        ctx.check(R, nm + "/opened", f.where, okp, "success is returned although the file could not be opened")
        gz = [e for e in evs if e.kind == "ctor" and e.name.endswith("GzipOutputStream")]
        cl = [e for e in evs if e.name.endswith("GzipOutputStream::Close")]
        if gz:
            okp, d = implies(ok, atom_nz(cl[0].res)) if len(cl) == 1 else (False, TRUE)
            ctx.check(R, nm + "/finished", f.where, okp, "success is returned although the compressed stream was not finished")
        fc = [e for e in evs if e.kind == "call" and e.name.endswith(("fstream::close", "fstream::flush", "ostream::flush"))]
        okp = any(implies(ok, atom_nz(mkT("flushed", e.uid)))[0] for e in fc if e.uid is not None)
        ctx.check(R, nm + "/closed", f.where, okp, "success is returned although the file was not closed without error")
        if cl and fc:
            i, j = evs.index(cl[0]), max(evs.index(e) for e in fc)
            ctx.check(R, nm + "/finish-before-close", f.where, i < j, "the file is closed before the compressed stream is finished")
        os_ = [e for e in evs if e.kind == "ctor" and e.name.endswith("OstreamOutputStream")]
        if os_ and fc:
            same = [e for e in fc if e.fn is os_[0].fn]
            if same:
                ctx.undec(R, nm + "/buffer", same[0].where, "the file may be closed while the output buffer is alive")
            else:
                ctx.ok(R, nm + "/buffer", os_[0].where)
        good = dd_not(body_pc(L))
        for t in op[:1]:
            good = dd_and(good, atom_nz(t))
        for e in cl:
            good = dd_and(good, atom_nz(e.res))
        for e in fc:
            good = dd_and(good, atom_nz(mkT("flushed", e.uid)))
        okp, d = implies(good, ok)
        ctx.check(R, nm + "/reported", f.where, okp, "an error is returned although everything was written")
        for e in opens(I):
            ctx.check(R, nm + "/file", e.where, e.args and single(e.args[0]) is leaf(proot(f, 2)), "another file is opened")
            if len(e.args) > 1:
                bt = bits(single(e.args[1]), e.name)
                ctx.check(R, nm + "/mode", e.where, bt is not None and bt & OUT and bt & BIN and not bt & (APP | ATE | IN), "the file is opened with mode %s" % bt)


def _ix(d):
    return dd_apply(lambda t: t.args[1] if t.op == "it" else t, d)


def _par(f, i):
    return mkT("arg", i, isint=True)

PROPERTIES = {"F01": [f01], "F02": [f02], "F04": [f04], "F05": [f05]}
