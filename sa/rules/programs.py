"""The two command line programs: exit status, and what flows from flags to the library."""
from ..util import *
from ..runner import Anchor
from .. import interp
from . import inout

SRC = ("convert.cc", "trader.cc")


def retclass(t):
    return t.replace(" ", "").replace("const", "")


def main_run(ctx, src, opaque=()):
    fs = [f for f in ctx.fn("main") if f.d.get("file") == src]
    if not fs:
        raise Anchor("main of %s" % src)
    rd = {f.d.get("mg") or f.where for f, r in inout.readers(ctx)}

    def hook(I, st, e, g, obj, vals, dst):
        return (g.d.get("mg") or g.where) in rd or g.qn.startswith("trader::") and not g.qn.startswith("trader::CsvLogger")
    I, st, v, rl = run(ctx, fs[0], hook=hook, opaque=opaque, n=1500000, unroll=8)
    return fs[0], I, st, v


def events(I, kind=None):
    return [e for e, s, pos in walk(I.ev) if (kind is None or e.kind == kind) and prune(e.pc) is not FALSE]


def status_calls(I):
    """Calls that return a status: (event, loops)."""
    out = []
    for e, s, pos in walk(I.ev):
        t = retclass((e.node or {}).get("t", "")) if isinstance(e.node, dict) else ""
        if e.kind == "call" and (t.startswith("absl::Status") or t.startswith("absl::StatusOr")) and prune(e.pc) is not FALSE:
            out.append((e, s))
    return out


def isok_of(terms, e):
    """The test of the status that call e returned."""
    out = []
    for t in terms:
        if t.op == "isok":
            for y in term_subterms(t):
                if y.op == "ret" and len(y.args) > 1 and y.args[1] is e.uid:
                    out.append(t)
                    break
    return out


def f03(ctx):
    R = "exit-status"
    ctx.rule(R, "each program returns 0 only if every operation it executed that returns a status succeeded; every other end is exit() with a code other than 0 after a message on "
                "stderr")
    for src in SRC:
        f, I, st, v = main_run(ctx, src)
        nm = src.split(".")[0]
        if gaps(I):
            ctx.undec(R, nm, f.where, gaps(I)[0])
            continue
        end = st.pc
        ctx.check(R, nm + "/success", f.where, prune(end) is not FALSE and all(t is ZERO for t in leaves(under(v, end))), "the program returns " + short(showdd(v, 2)))
        terms = set(term_subterms(end))
        k = 0
        for e, s in status_calls(I):
            k += 1
            inst = "%s/%s" % (nm, "%s#%d" % (e.name.split("::")[-1], k))
            ok = isok_of(terms, e)
            good = False
            for t in ok:
                g, d = implies(dd_and(end, e.pc), atom_nz(t))
                good = good or g
            if s and not good:
                ctx.undec(R, inst, e.where, "status tested in a loop")
                continue
            ctx.check(R, inst, e.where, good, "the program can return 0 although %s at %s failed" % (e.name, e.where))
        prints = [e for e in events(I) if e.kind == "print" and e.name == "absl::FPrintF" and any(y.op == "ld" and show(y).startswith("stderr") for a in e.args[:1] for y in leaves(a))]
        prints += [e for e in events(I) if e.name == "fprintf" or (e.kind == "out" and e.obj is not None and "cerr" in showdd(e.obj, 2))]
        for e in events(I, "call"):
            if e.name.split("::")[-1] in ("exit", "_exit", "quick_exit", "abort"):
                c = single(e.args[0]) if e.args else None
                if e.args:
                    ctx.check(R, "%s/exit-code@%s" % (nm, e.where), e.where, c is not None and c.op == "num" and int(c.args[0]) % 256 != 0, "exit with code " + short(showdd(e.args[0], 2)))
                said = FALSE
                for p in prints:
                    said = dd_or(said, p.pc)
                ok, d = implies(e.pc, said)
                ctx.check(R, "%s/message@%s" % (nm, e.where), e.where, ok, "the program ends without an error message")


def text_at(I, e, i):
    """The string an argument (pointer or value) denotes at an event."""
    a = single(e.args[i])
    if a is None:
        return None
    if a.op == "ptr":
        x = I.load(e.st, a.args[0], "s")
        return single(under(x, e.pc)) if isinstance(x, (T, N)) else None
    return a


def flag(n):
    return mkT("flag", n)


def given(n):
    """The flag is not empty."""
    return dd_not(t_eq(flag(n), string("")))


def period_arg(I, evs, a):
    """The flag whose parsed time an argument is."""
    t = single(a)
    if t is None or t.op != "ld" or t.args[0].op != "ret" or t.args[1] != ("$v",):
        return None
    for e in evs:
        if e.uid is t.args[0].args[1] and e.name == "trader::ParseTime":
            x = text_at(I, e, 0)
            return x.args[0] if x is not None and x.op == "flag" else None
    return None


def range_of(I, e, i, j):
    """Container whose full range arguments i, j of an event are, and whether it is the full range."""
    a, b = _its(e.args[i], e.pc), _its(e.args[j], e.pc)
    if a is None or b is None:
        return None, False
    C = a[0]
    n = I.load(e.st, C + ("$n",), "u")
    full = all(t is ZERO for t in leaves(a[1])) and differ(b[1], n, e.pc) is FALSE and b[0] == C
    return C, full


def _its(d, pc):
    ls = leaves(under(d, pc))
    if not all(t.op == "it" for t in ls) or len({t.args[0] for t in ls}) != 1:
        return None
    b = next(iter(ls)).args[0]
    if b.op != "ptr":
        return None
    return b.args[0], dd_apply(lambda t: t.args[1] if t.op == "it" else ZERO, under(d, pc))


def from_call(I, e, C, c, fields, pc, val):
    """Container C at event e holds what call c returned."""
    base = ("$v",) if val else ()
    n = under(I.load(e.st, C + ("$n",), "u"), pc)
    i = mkT("i", nn=True, isint=True)
    good = all(_is_ret(t, c, base + ("$n",)) for t in leaves(n))
    inr = dd_and(pc, dd_apply(lambda x: t_lt(i, x), n))
    for k in fields:
        x = under(I.load(e.st, C + ("[]", i, k), "f"), inr)
        good = good and all(_is_ret(t, c, base + ("[]", i, k)) for t in leaves(x))
    return good


def _is_ret(t, c, path):
    return t.op == "ld" and t.args[0].op == "ret" and t.args[0].args[1] is c.uid and t.args[1] == path


INPUTS = {("PriceRecord", "csv"): "input_price_history_csv_file", ("PriceRecord", "proto"): "input_price_history_delimited_proto_file",
          ("OhlcTick", "csv"): "input_ohlc_history_csv_file", ("OhlcTick", "proto"): "input_ohlc_history_delimited_proto_file",
          ("SideInputRecord", "csv"): "input_side_history_csv_file"}
OUTPUTS = {"PriceRecord": "output_price_history_delimited_proto_file", "OhlcTick": "output_ohlc_history_delimited_proto_file",
           "SideInputRecord": "output_side_history_delimited_proto_file"}


def f06(ctx):
    R = "converter"
    ctx.rule(R, "in the converter, each input flag selects its reader, which gets that file and the parsed start and end times; each history read is written completely to the "
                "file of its output flag with the compression flag; prices are turned into OHLC by RemoveOutliers and Resample with their flags; success needs exactly one "
                "input file and a positive sampling rate")
    f, I, st, v = main_run(ctx, "convert.cc")
    if gaps(I):
        ctx.undec(R, "main", f.where, gaps(I)[0])
        return
    evs = events(I)
    end = st.pc
    kinds = {}
    for g, rec in inout.readers(ctx):
        r = inout.Read(ctx, g)
        kinds[g.qn] = (rec, "proto" if r.parses else "csv" if r.lines else None)
    calls = {}
    for e in evs:
        if e.kind == "call" and e.name in kinds and kinds[e.name][1]:
            calls.setdefault(kinds[e.name], []).append(e)
    for key, fl in sorted(INPUTS.items()):
        inst = "%s@%s" % key
        es = calls.get(key, [])
        if len(es) != 1:
            ctx.undec(R, inst, f.where, "%d calls of the reader" % len(es))
            continue
        e = es[0]
        x = text_at(I, e, 0)
        ctx.check(R, inst + "/file", e.where, x is flag(fl), "the reader gets the file %s" % (show(x) if x is not None else "?"))
        a, b = period_arg(I, evs, e.args[1]), period_arg(I, evs, e.args[2])
        ctx.check(R, inst + "/start", e.where, a == "start_time", "the period read starts at " + (a or short(showdd(e.args[1], 2))))
        ctx.check(R, inst + "/end", e.where, b == "end_time", "the period read ends at " + (b or short(showdd(e.args[2], 2))))
        ok, d = implies(dd_and(end, given(fl)), e.pc)
        ctx.check(R, inst + "/read", e.where, ok, "the program returns 0 without reading the file of --%s" % fl)
    # exactly one input
    fls = sorted(INPUTS.values())
    none = TRUE
    for x in fls:
        none = dd_and(none, dd_not(given(x)))
    ctx.check(R, "inputs/some", f.where, implies(end, dd_not(none))[0], "the program returns 0 without an input file")
    for i, x in enumerate(fls):
        for y in fls[i + 1:]:
            ctx.check(R, "inputs/%s+%s" % (x, y), f.where, implies(end, dd_not(dd_and(given(x), given(y))))[0], "the program returns 0 with both --%s and --%s" % (x, y))
    # outputs
    ws = {}
    for e in evs:
        if e.kind == "call" and e.name == "trader::WriteDelimitedMessagesToFile":
            pts = "".join(e.node["fn"]["pt"])
            rec = next((r for r in RECS if "trader::" + r in pts), None)
            ws.setdefault(rec, []).append(e)
    for rec, fl in sorted(OUTPUTS.items()):
        es = ws.get(rec, [])
        if len(es) != 1:
            ctx.undec(R, "write/" + rec, f.where, "%d calls of the writer" % len(es))
            continue
        e = es[0]
        fs = [k for k in inout.fields_of(ctx, rec) if k != "signal"]
        x = text_at(I, e, 2)
        ctx.check(R, "write/%s/file" % rec, e.where, x is flag(fl), "the history is written to %s" % (show(x) if x is not None else "?"))
        ok, d = implies(e.pc, given(fl))
        ctx.check(R, "write/%s/asked" % rec, e.where, ok, "the history is written without --%s" % fl)
        c = e.args[3]
        ctx.check(R, "write/%s/compress" % rec, e.where, differ(c, atom_nz(flag("compress")), e.pc) is FALSE, "compression is " + short(showdd(c, 2)))
        C, full = range_of(I, e, 0, 1)
        if C is None:
            ctx.undec(R, "write/" + rec, e.where, "range written")
            continue
        ctx.check(R, "write/%s/all" % rec, e.where, full, "the range written is [%s, %s)" % (short(showdd(e.args[0], 2), 100), short(showdd(e.args[1], 2), 100)))
        for key in sorted(INPUTS):
            if key[0] != rec or len(calls.get(key, [])) != 1:
                continue
            rd = calls[key][0]
            pc = dd_and(e.pc, rd.pc)
            ctx.check(R, "write/%s/from-%s" % (rec, key[1]), e.where, prune(pc) is not FALSE and from_call(I, e, C, rd, fs, pc, True), "what is written is not what %s returned" % rd.name)
            n = leaf_ret(rd, "$v", "$n")
            ok, d = implies(dd_and(dd_and(end, rd.pc), dd_and(given(fl), (V(n) >= 1).d)), e.pc)
            ctx.check(R, "write/%s/done-%s" % (rec, key[1]), e.where, ok, "the program returns 0 without writing the history to --%s" % fl)
    # conversion
    ro = [e for e in evs if e.name == "trader::RemoveOutliers"]
    rs = [e for e in evs if e.name == "trader::Resample"]
    if len(ro) != 1 or len(rs) != 1:
        ctx.undec(R, "resample", f.where, "%d and %d calls" % (len(ro), len(rs)))
        return
    ro, rs = ro[0], rs[0]
    pf = inout.fields_of(ctx, "PriceRecord")
    C, full = range_of(I, ro, 0, 1)
    ctx.check(R, "outliers/all", ro.where, C is not None and full, "outliers are removed from a part of the history")
    ctx.check(R, "outliers/deviation", ro.where, single(ro.args[2]) is flag("max_price_deviation_per_min"), "the deviation allowed is " + short(showdd(ro.args[2], 2)))
    D, full = range_of(I, rs, 0, 1)
    ctx.check(R, "resample/all", rs.where, D is not None and full, "a part of the history is resampled")
    ctx.check(R, "resample/rate", rs.where, single(rs.args[2]) is flag("sampling_rate_sec"), "the sampling rate is " + short(showdd(rs.args[2], 2)))
    ok, d = implies(rs.pc, (V(flag("sampling_rate_sec")) > 0).d)
    ctx.check(R, "resample/positive", rs.where, ok, "the sampling rate may not be positive")
    if D is not None:
        ctx.check(R, "resample/clean", rs.where, from_call(I, rs, D, ro, pf, rs.pc, False), "what is resampled is not the history without outliers")
    fl = OUTPUTS["OhlcTick"]
    for key in sorted(INPUTS):
        if key[0] == "PriceRecord" and len(calls.get(key, [])) == 1:
            rd = calls[key][0]
            pc = dd_and(ro.pc, rd.pc)
            ctx.check(R, "outliers/from-" + key[1], ro.where, C is not None and prune(pc) is not FALSE and from_call(I, ro, C, rd, pf, pc, True), "outliers are not removed from the history read")
            n = leaf_ret(rd, "$v", "$n")
            ok, d = implies(dd_and(dd_and(end, rd.pc), dd_and(given(fl), (V(n) >= 1).d)), rs.pc)
            ctx.check(R, "resample/done-" + key[1], rs.where, ok, "the program returns 0 without resampling the prices for --%s" % fl)
    for e in ws.get("OhlcTick", [])[:1]:
        W, full = range_of(I, e, 0, 1)
        of = inout.fields_of(ctx, "OhlcTick")
        pc = dd_and(e.pc, rs.pc)
        if W is not None:
            ctx.check(R, "write/OhlcTick/resampled", e.where, prune(pc) is not FALSE and from_call(I, e, W, rs, of, pc, False), "what is written is not the resampled history")
        n = leaf_ret(rs, "$n")
        ok, d = implies(dd_and(dd_and(end, rs.pc), dd_and(given(fl), (V(n) >= 1).d)), e.pc)
        ctx.check(R, "write/OhlcTick/done-resampled", e.where, ok, "the resampled history is not written")


RECS = inout.RECORDS


def leaf_ret(e, *path):
    return mkT("ld", mkT("ret", e.name, e.uid), tuple(path), isint=path[-1] == "$n", nn=path[-1] == "$n")


# The account configuration of the trader program, as documented in README.md.
UNITS = {("base_unit",): 0.00001, ("quote_unit",): 0.01}
for _k in ("market", "limit", "stop"):
    UNITS[(_k + "_order_fee_config", "relative_fee")] = 0.005
    UNITS[(_k + "_order_fee_config", "fixed_fee")] = 0
    UNITS[(_k + "_order_fee_config", "minimum_fee")] = 0
OWN = ("start_base_balance", "start_quote_balance", "market_liquidity", "max_volume_ratio")
SIDE = "trader::SideInput"


def trader_run(ctx):
    return main_run(ctx, "trader.cc", opaque=(SIDE + "::SideInput",))


def near(t, x):
    if t is None or t.op != "num":
        return False
    v = float(t.args[0])
    return abs(v - x) <= 1e-6 * abs(x)


def at_ptr(d):
    """The location of an object argument."""
    t = single(d)
    return t.args[0] if t is not None and t.op == "ptr" else None


def subset_of(ctx, R, inst, I, evs, c, fl):
    """Call c returns the records of the file of a flag within the period."""
    C = at_ptr(c.args[0])
    rd = [e for e in evs if e.name == "trader::ReadDelimitedMessagesFromFile" and C is not None and at_ptr(e.args[1]) == C]
    if len(rd) != 1:
        ctx.undec(R, inst + "/read", c.where, "the list selected from is not filled by one read")
        return
    x = text_at(I, rd[0], 0)
    ctx.check(R, inst + "/file", rd[0].where, x is flag(fl), "reads the file " + (show(x) if x is not None else "?"))
    n = leaves(under(I.load(c.st, C + ("$n",), "u"), c.pc))
    ctx.check(R, inst + "/all", c.where, all(t.op == "ld" and t.args[0].op == "out" and t.args[0].args[0] is rd[0].uid and t.args[1] == ("$n",) for t in n),
              "selects from a list that is not what was read")
    for i, k in ((1, "start_time"), (2, "end_time")):
        got = secs(evs, c.args[i])
        ctx.check(R, "%s/%s" % (inst, k), c.where, got == k, "the selection is bounded by " + (got or short(showdd(c.args[i], 2))))


def secs(evs, d):
    """The flag whose parsed time in seconds d is."""
    t = single(d)
    while t is not None and t.op == "trunc":
        t = t.args[0]
    return period_arg(None, evs, t) if t is not None and t.op == "ld" else None


def period_name(I, evs, d):
    return secs(evs, d)


def f11(ctx):
    R = "trader-inputs"
    ctx.rule(R, "the evaluation gets: the account configuration of the flags with the documented units and fees; the period of the time flags and its length in months; the history file's "
                "ticks within the period; a side input made of the side file's records of the period if and only if that flag is given; the trader or batch named by the flag; "
                "fast evaluation in a batch only; a logger on the log files, which are truncated, and not given for several periods")
    f, I, st, v = trader_run(ctx)
    if gaps(I):
        ctx.undec(R, "main", f.where, gaps(I)[0])
        return
    evs = events(I)
    by = {}
    for e in evs:
        by.setdefault(e.name, []).append(e)
    one, batch = by.get("trader::EvaluateTrader", []), by.get("trader::EvaluateBatchOfTraders", [])
    if len(one) != 1 or len(batch) != 1:
        ctx.undec(R, "main", f.where, "%d and %d evaluations" % (len(one), len(batch)))
        return
    one, batch = one[0], batch[0]
    fb = atom_nz(flag("evaluate_batch"))
    ctx.check(R, "batch/flag", batch.where, implies(batch.pc, fb)[0] and implies(dd_and(st.pc, fb), batch.pc)[0], "the batch is not evaluated exactly when asked")
    ctx.check(R, "single/flag", one.where, implies(one.pc, dd_not(fb))[0] and implies(dd_and(st.pc, dd_not(fb)), one.pc)[0], "the trader is not evaluated exactly when no batch is asked")
    subs = by.get("trader::HistorySubsetCopy", [])
    for nm, e in (("single", one), ("batch", batch)):
        acc, ec, hist = at_ptr(e.args[0]), at_ptr(e.args[1]), at_ptr(e.args[2])
        if acc is None or ec is None or hist is None:
            ctx.undec(R, nm, e.where, "arguments")
            continue
        for path, x in sorted(UNITS.items()):
            y = single(under(I.load(e.st, acc + path, "f"), e.pc))
            ctx.check(R, "%s/%s" % (nm, ".".join(path)), e.where, near(y, x), "%s is %s" % (".".join(path), show(y) if y is not None else "?"))
        for k in OWN:
            y = single(under(I.load(e.st, acc + (k,), "f"), e.pc))
            ctx.check(R, "%s/%s" % (nm, k), e.where, y is flag(k), "%s is %s" % (k, show(y) if y is not None else "?"))
        for k in ("start", "end"):
            y = under(I.load(e.st, ec + (k + "_timestamp_sec",), "i"), e.pc)
            got = secs(evs, y)
            ctx.check(R, "%s/%s" % (nm, k), e.where, got == k + "_time", "the evaluation %ss at %s" % (k, got or short(showdd(y, 2))))
        y = single(under(I.load(e.st, ec + ("evaluation_period_months",), "i"), e.pc))
        ctx.check(R, nm + "/months", e.where, y is not None and show(y) == show(flag("evaluation_period_months")), "the period has %s months" % (show(y) if y is not None else "?"))
        y = prune(under(I.load(e.st, ec + ("fast_eval",), "b"), e.pc))
        ctx.check(R, nm + "/fast", e.where, y is (TRUE if nm == "batch" else FALSE), "fast evaluation is " + short(showdd(y, 2)))
        n = leaves(under(I.load(e.st, hist + ("$n",), "u"), e.pc))
        src = [c for c in subs if all(_is_ret(t, c, ("$n",)) for t in n)]
        if len(src) != 1:
            ctx.check(R, nm + "/history", e.where, False, "the history evaluated is not the selected part of the file: " + ", ".join(sorted(map(show, n)))[:200])
        else:
            fs = inout.fields_of(ctx, "OhlcTick")
            ctx.check(R, nm + "/history", e.where, from_call(I, e, hist, src[0], fs, e.pc, False), "the history evaluated is not the selected part of the file")
            subset_of(ctx, R, nm + "/history", I, evs, src[0], "input_ohlc_history_delimited_proto_file")
        fl = "input_side_history_delimited_proto_file"
        got = FALSE
        for lits, t in cubes_of(under(e.args[3], e.pc)):
            c = cube(lits)
            if t.op == "null":
                continue
            got = dd_or(got, c)
            mk_ = [x for x in evs if x.kind == "ctor" and x.name == SIDE and x.obj is not None and at_ptr(x.obj) == t.args[0]] if t.op == "ptr" else []
            if len(mk_) != 1:
                ctx.undec(R, nm + "/side", e.where, "side input " + show(t))
                continue
            H = at_ptr(mk_[0].args[0])
            src = None
            if H is not None:
                n = leaves(under(I.load(mk_[0].st, H + ("$n",), "u"), mk_[0].pc))
                src = next((s for s in subs if all(_is_ret(q, s, ("$n",)) for q in n)), None)
            if src is None:
                ctx.check(R, nm + "/side/records", mk_[0].where, False, "the side input is not made of the selected part of the file")
                continue
            subset_of(ctx, R, nm + "/side", I, evs, src, fl)
        ctx.check(R, nm + "/side/asked", e.where, implies(dd_and(e.pc, given(fl)), got)[0] and implies(dd_and(e.pc, got), given(fl))[0],
                  "the side input is not given exactly when its flag is")
    for nm, e, mk_ in (("single", one, "trader::GetTrader"), ("batch", batch, "trader::GetBatchOfTraders")):
        es = by.get(mk_, [])
        if len(es) != 1:
            ctx.undec(R, nm + "/trader", e.where, "%d calls of %s" % (len(es), mk_))
            continue
        x = text_at(I, es[0], 0)
        ctx.check(R, nm + "/trader", es[0].where, x is flag("trader"), "the trader is named " + (show(x) if x is not None else "?"))
        a = single(e.args[4])
        if nm == "single":
            ctx.check(R, nm + "/emitter", e.where, a is not None and a.op == "ret" and a.args[1] is es[0].uid, "evaluates " + short(showdd(e.args[4], 2)))
        elif a is not None and a.op == "ptr":
            n = leaves(under(I.load(e.st, a.args[0] + ("$n",), "u"), e.pc))
            ctx.check(R, nm + "/emitter", e.where, all(_is_ret(t, es[0], ("$n",)) for t in n), "evaluates another batch")
    # logging
    lg = at_ptr(one.args[5])
    months = (V(flag("evaluation_period_months")) > 0).d
    ty = single(I.load(one.st, lg + ("$type",), "s")) if lg is not None else None
    if ty is not string("trader::CsvLogger"):
        ctx.undec(R, "log", one.where, "the logger")
        return
    opens = [e for e in evs if e.name == "std::basic_ofstream::open" or e.kind == "ctor" and e.name == "std::basic_ofstream" and e.args]
    for nm, k, fl in (("exchange", 0, "output_exchange_log_file"), ("trader", 1, "output_trader_log_file")):
        fld = _logger_field(ctx, k)
        if fld is None:
            ctx.undec(R, "log/" + nm, one.where, "field of the logger")
            continue
        d = under(I.load(one.st, lg + (fld,), "p"), one.pc)
        some = FALSE
        for lits, t in cubes_of(d):
            if t.op == "null":
                continue
            c = cube(lits)
            some = dd_or(some, c)
            op = [e for e in opens if t.op == "ptr" and e.obj is not None and any(q.op == "ptr" and q.args[0] == t.args[0] for q in leaves(e.obj))]
            if len(op) != 1:
                ctx.undec(R, "log/%s/stream" % nm, one.where, show(t))
                continue
            x = text_at(I, op[0], 0)
            ctx.check(R, "log/%s/file" % nm, op[0].where, x is flag(fl), "the %s log is written to %s" % (nm, show(x) if x is not None else "?"))
            md = single(op[0].args[1]) if len(op[0].args) > 1 else num(16)
            ctx.check(R, "log/%s/mode" % nm, op[0].where, md is not None and md.op == "num" and int(md.args[0]) & 16 and not int(md.args[0]) & 1, "the log file is not opened for writing from its start")
        ctx.check(R, "log/%s/asked" % nm, one.where, implies(dd_and(one.pc, given(fl)), some)[0] and implies(dd_and(one.pc, some), given(fl))[0],
                  "the %s log is not written exactly when its file is given" % nm)
        ok, d = implies(dd_and(one.pc, given(fl)), dd_not(months))
        ctx.check(R, "log/%s/single-period" % nm, one.where, ok, "several periods are logged into one file")


def _logger_field(ctx, k):
    c = ctx.fn("trader::CsvLogger::CsvLogger", 0, pred=lambda f: len(f.d["params"]) == 2)
    I, st, v, rl = run(ctx, c)
    for loc, x in st.mem.items():
        t = single(x)
        if loc[0] == ("P", "this") and len(loc) == 2 and t is not None and show(t) in ("arg(%d)" % k, "&" + c.d["params"][k]["n"]):
            return loc[1]
    return None


TOP = 20


def line_parts(I, e):
    """The values shown by a printed line, in order: (value, format)."""
    t = single(e.args[1]) if len(e.args) > 1 else None
    if t is None:
        return None
    return [(x.args[1], x.args[0]) if x.op == "fmt" else (x, None) for x in (t.args if t.op == "cat" else (t,)) if x.op != "str"]


def f12(ctx):
    R = "trader-results"
    ctx.rule(R, "a batch prints the name and score of its first 20 results (all if fewer) after sorting all of them by falling score; a single evaluation prints every period in order: "
                "start, end, gain of the trader and of the base currency in per cent, their ratio and both volatilities, of that same period")
    f, I, st, v = trader_run(ctx)
    if gaps(I):
        ctx.undec(R, "main", f.where, gaps(I)[0])
        return
    evs = events(I)
    one = [e for e in evs if e.name == "trader::EvaluateTrader"]
    batch = [e for e in evs if e.name == "trader::EvaluateBatchOfTraders"]
    if len(one) != 1 or len(batch) != 1:
        ctx.undec(R, "main", f.where, "evaluations")
        return
    one, batch = one[0], batch[0]
    # sorting
    sorts = [e for e in evs if e.kind == "algo"]
    n = leaf_ret(batch, "$n")
    if len(sorts) != 1 or sorts[0].name not in ("std::sort", "std::stable_sort"):
        ctx.undec(R, "sort", batch.where, "%d sorting steps" % len(sorts))
        return
    so = sorts[0]
    C, full = range_of(I, so, 0, 1)
    if C is None:
        ctx.undec(R, "sort", so.where, "range sorted")
        return
    ctx.check(R, "sort/all", so.where, full and all(t is n for t in leaves(under(I.load(so.st, C + ("$n",), "u"), so.pc))), "not all results are sorted")
    lds = sorted({t for t in term_subterms(so.args[2]) if t.op == "ld" and t.args[1][-1:] == ("score",)}, key=show)
    if len(lds) != 2 or "bound(0)" not in show(lds[0]) or "bound(1)" not in show(lds[1]):
        ctx.check(R, "sort/key", so.where, False, "results are not sorted by their score: " + short(showdd(so.args[2], 3)))
        return
    ctx.check(R, "sort/order", so.where, differ(so.args[2], (V(lds[0]) > lds[1]).d, TRUE) is FALSE, "results are not sorted by falling score: " + short(showdd(so.args[2], 3)))
    prints = [(e, s) for e, s, pos in walk(I.ev) if e.kind == "print" and s and prune(e.pc) is not FALSE]
    bp = [(e, s) for e, s in prints if any(y.op == "ev" and y is so.uid or y.op.startswith("std::") for y in term_subterms(e.args[1]))]
    sp = [(e, s) for e, s in prints if any(y is one.uid for y in term_subterms(e.args[1]))]
    if len(bp) != 1 or len(bp[0][1]) != 1:
        ctx.undec(R, "batch/print", batch.where, "%d lines" % len(bp))
    else:
        e, L = bp[0][0], bp[0][1][0]
        k = V(L.kappa)
        want = (k < n) & (k < TOP)
        ctx.check(R, "batch/lines", e.where, L.cond is not None and differ(L.cond, want.d, L.pc) is FALSE and implies(dd_and(L.pc, L.cond), e.pc)[0],
                  "lines are printed while " + short(showdd(under(L.cond, L.pc), 3)))
        parts = line_parts(I, e)
        if parts is None:
            ctx.undec(R, "batch/line", e.where, "text")
        else:
            for i, fld in enumerate(("name", "score")):
                ok = i < len(parts) and parts[i][0].op == "ld" and parts[i][0].args[1] == ("[]", L.kappa, fld) or \
                    i < len(parts) and show(parts[i][0]).endswith(".[k%s].%s" % (L.lid, fld))
                ctx.check(R, "batch/" + fld, e.where, ok, "the line shows " + (show(parts[i][0]) if i < len(parts) else "nothing"))
            ctx.check(R, "batch/values", e.where, len(parts) == 2, "the line shows %d values" % len(parts))
        ok, d = implies(dd_and(st.pc, batch.pc), L.pc)
        ctx.check(R, "batch/always", e.where, ok, "the results are not printed")
    fm = [e for e in evs if e.name == "trader::FormatTimeUTC"]
    if len(sp) != 1 or len(sp[0][1]) != 1:
        ctx.undec(R, "single/print", one.where, "%d lines" % len(sp))
        return
    e, L = sp[0][0], sp[0][1][0]
    ctx.check(R, "single/lines", e.where, L.cond is not None and differ(L.cond, (V(L.kappa) < leaf_ret(one, "period", "$n")).d, L.pc) is FALSE and implies(dd_and(L.pc, L.cond), e.pc)[0],
              "lines are printed while " + short(showdd(under(L.cond, L.pc), 3)))
    ctx.check(R, "single/always", e.where, implies(dd_and(st.pc, one.pc), L.pc)[0], "the result is not printed")
    parts = line_parts(I, e)
    if parts is None:
        ctx.undec(R, "single/line", e.where, "text")
        return

    def per(*path):
        return V(mkT("ld", mkT("ret", one.name, one.uid), ("period", "[]", L.kappa) + path))
    g, bg = per("final_gain"), per("base_final_gain")
    want = [("start", per("start_timestamp_sec")), ("end", per("end_timestamp_sec")), ("gain", (g - 1) * 100), ("base-gain", (bg - 1) * 100), ("score", g / bg),
            ("volatility", per("result", "trader_volatility")), ("base-volatility", per("result", "base_volatility"))]
    ctx.check(R, "single/values", e.where, len(parts) == len(want), "the line shows %d values" % len(parts))
    for i, (k, w) in enumerate(want[:len(parts)]):
        x = parts[i][0]
        if i < 2:
            c = [y for y in fm if x.op == "ret" and x.args[1] is y.uid]
            x = single(c[0].args[0]) if c else x
        ctx.check(R, "single/" + k, e.where, x is not None and same(x, w), "the line shows %s as %s" % (show(x) if x is not None else "?", k))
        if i > 1:
            ctx.check(R, "single/%s/digits" % k, e.where, parts[i][1] is not None and parts[i][1][-1] == "f", "shown as %s" % parts[i][1])


def same(x, w):
    return show(x) == show(single(w.d) or ZERO) or differ(x, w.d, TRUE) is FALSE


def digits(t, first, second):
    """t as a sum of c * floor((second - first) / k): {k: c}; None if it is not of that form."""
    if t.op == "idiv" and is_num(t.args[1]):
        X, a = digits(t.args[0], first, second), t.args[1].args[0]
        if X is None or a <= 0:
            return None
        if -1 in X:
            return X
        ks = sorted(X)
        if len(ks) == 1 and X[ks[0]] == 1:
            return {ks[0] * a: 1}
        if len(ks) == 2 and X[ks[0]] == 1 and ks[1] % ks[0] == 0 and X[ks[1]] == -ks[1] / ks[0]:
            # the quotient of a remainder
            if ks[1] == ks[0] * a:
                return {}
            if ks[1] % (ks[0] * a) == 0:
                return {ks[0] * a: 1, ks[1]: -ks[1] / (ks[0] * a)}
        return None
    if t is first or t is second:
        return {-1: 1}          # an end, not the distance
    if t.op != "poly":
        return None
    out, ends = {}, {}
    for m, c in t.args:
        if len(m) != 1 or m[0][1] != 1:
            return None
        x = m[0][0]
        if x is first or x is second:
            ends[x] = c
            continue
        d = digits(x, first, second)
        if d is None:
            return None
        if -1 in d:
            return d
        for k, v in d.items():
            out[k] = out.get(k, 0) + c * v
    if ends:
        if ends.get(first, 0) != -ends.get(second, 0):
            return {-1: 1}
        out[1] = out.get(1, 0) + ends[second]
    return {k: v for k, v in out.items() if v}


HMS = (("hours", {3600: 1}), ("minutes", {60: 1, 3600: -60}), ("seconds", {1: 1, 60: -60}))


def parts_of(t):
    return [(x.args[1], x.args[0]) if x.op == "fmt" else (x, None) for x in (t.args if t.op == "cat" else (t,)) if x.op != "str"]


def shown_time(I, fm, x, pc):
    """What a formatted time shows, in seconds."""
    c = [y for y in fm if x.op == "ret" and x.args[1] is y.uid]
    return single(under(c[0].args[0], pc)) if c else None


def f13(ctx):
    R = "report"
    ctx.rule(R, "whenever prices are read, the gaps that GetPriceHistoryGaps returns for the whole history and --top_n_gaps are all printed in order: both ends as timestamp and time, and "
                "their distance as h:mm:ss; whenever outliers are removed, GetOutlierIndicesWithContext gets the indices that RemoveOutliers reported, the size of the history it was given, "
                "five records of context and --last_n_outliers, and every record listed is printed in order with the values it has in that history, marked exactly if it is an outlier, "
                "with a separator exactly between records that do not follow each other")
    f, I, st, v = main_run(ctx, "convert.cc")
    if gaps(I):
        ctx.undec(R, "main", f.where, gaps(I)[0])
        return
    evs = events(I)
    rds = []
    for g, rec in inout.readers(ctx):
        if rec == "PriceRecord":
            rds += [e for e in evs if e.kind == "call" and e.name == g.qn]
    G = [e for e in evs if e.name == "trader::GetPriceHistoryGaps"]
    O = [e for e in evs if e.name == "trader::GetOutlierIndicesWithContext"]
    ro = [e for e in evs if e.name == "trader::RemoveOutliers"]
    if len(G) != 1 or len(O) != 1 or len(ro) != 1 or not rds:
        ctx.undec(R, "main", f.where, "%d, %d and %d calls" % (len(G), len(O), len(ro)))
        return
    G, O, ro = G[0], O[0], ro[0]
    fm = [e for e in evs if e.name == "trader::FormatTimeUTC"]
    pf = inout.fields_of(ctx, "PriceRecord")
    prints = [(e, s) for e, s, pos in walk(I.ev) if e.kind == "print" and s and prune(e.pc) is not FALSE]

    def lines(c, nm):
        """The loops that print what call c returned."""
        es = [(e, s) for e, s in prints if any(y is c.uid for L in s for y in term_subterms(L.cond))]
        real = [(e, s) for e, s in es if any(parts_of(t) for t in leaves(under(e.args[1], e.pc)))]
        if len(real) != 1 or len(real[0][1]) != 1 or any(s[0] is not real[0][1][0] for e, s in es):
            ctx.undec(R, nm, c.where, "%d lines" % len(real))
            return None, None, ()
        e, L = real[0][0], real[0][1][0]
        ctx.check(R, nm + "/lines", e.where, differ(L.cond, (V(L.kappa) < leaf_ret(c, "$n")).d, L.pc) is FALSE and implies(dd_and(L.pc, L.cond), e.pc)[0],
                  "lines are printed while " + short(showdd(under(L.cond, L.pc), 3)))
        ctx.check(R, nm + "/always", e.where, implies(dd_and(st.pc, c.pc), L.pc)[0], "what was found is not printed")
        return e, L, [x for x, s in es if x is not e]
    # gaps
    C, full = range_of(I, G, 0, 1)
    ctx.check(R, "gaps/all", G.where, C is not None and full, "gaps of a part of the history are printed")
    for i in (2, 3):
        ctx.check(R, "gaps/between-records-%d" % (i - 1), G.where, implies(G.pc, (V(G.args[i]) <= 0).d)[0], "a gap outside of the records is looked for, from " + short(showdd(G.args[i], 2)))
    ctx.check(R, "gaps/number", G.where, single(G.args[4]) is flag("top_n_gaps"), "the number of gaps is " + short(showdd(G.args[4], 2)))
    for i, rd in enumerate(rds):
        pc = dd_and(G.pc, rd.pc)
        ctx.check(R, "gaps/from-%d" % i, G.where, C is not None and prune(pc) is not FALSE and from_call(I, G, C, rd, pf, pc, True), "the gaps are not those of the history read")
        ok, d = implies(dd_and(dd_and(st.pc, rd.pc), (V(leaf_ret(rd, "$v", "$n")) >= 1).d), G.pc)
        ctx.check(R, "gaps/done-%d" % i, G.where, ok, "the program returns 0 without printing gaps")
    e, L, rest = lines(G, "gaps")
    if e is not None:
        a, b = (mkT("ld", mkT("ret", G.name, G.uid), ("[]", L.kappa, k)) for k in ("first", "second"))
        a = next((t for t in term_subterms(e.args[1]) if show(t) == show(a)), a)
        b = next((t for t in term_subterms(e.args[1]) if show(t) == show(b)), b)
        for t in leaves(under(e.args[1], e.pc)):
            ps = parts_of(t)
            ctx.check(R, "gaps/values", e.where, len(ps) == 7, "the line shows %d values" % len(ps))
            if len(ps) != 7:
                continue
            for i, (w, nm) in enumerate(((a, "start"), (None, "start"), (b, "end"), (None, "end"))):
                x = ps[i][0] if w is not None else shown_time(I, fm, ps[i][0], e.pc)
                w = w if w is not None else (a if i == 1 else b)
                ctx.check(R, "gaps/%s%s" % (nm, "-time" if i % 2 else ""), e.where, x is not None and show(x) == show(w), "the line shows %s as %s" % (show(x) if x is not None else "another value", nm))
            for i, (nm, w) in enumerate(HMS):
                x = digits(ps[4 + i][0], a, b)
                if x is None:
                    ctx.undec(R, "gaps/" + nm, e.where, "form of " + show(ps[4 + i][0]))
                else:
                    ctx.check(R, "gaps/" + nm, e.where, x == w, "the line shows %s as %s" % (show(ps[4 + i][0]), nm))
                if i:
                    ctx.check(R, "gaps/%s/digits" % nm, e.where, ps[4 + i][1] is not None and ps[4 + i][1].startswith("%02"), "shown as %s" % ps[4 + i][1])
        for x in rest:
            ctx.undec(R, "gaps/other", x.where, "another line")
    # outliers
    p = single(O.args[0])
    pr = single(ro.args[3])
    ok = p is not None and pr is not None and p.op == pr.op == "ptr"
    if ok:
        i = mkT("i", nn=True, isint=True)
        for path in (("$n",), ("[]", i)):
            ok = ok and all(t.op == "ld" and t.args[0].op == "out" and t.args[0].args[0] is ro.uid for t in leaves(under(I.load(O.st, p.args[0] + path, "u"), O.pc)) if t is not ZERO)
    ctx.check(R, "outliers/indices", O.where, ok, "the outliers listed are not those that were removed")
    ctx.check(R, "outliers/number", O.where, single(O.args[4]) is flag("last_n_outliers"), "the number of outliers is " + short(showdd(O.args[4], 2)))
    for i, nm in ((2, "left"), (3, "right")):
        ctx.check(R, "outliers/" + nm, O.where, differ(O.args[i], num(5), O.pc) is FALSE, "%s records are shown" % short(showdd(O.args[i], 2)))
    ctx.check(R, "outliers/done", O.where, implies(dd_and(st.pc, ro.pc), O.pc)[0], "outliers are removed without listing them")
    H, full = range_of(I, ro, 0, 1)
    e, L, rest = lines(O, "outliers")
    if e is None or H is None:
        return
    mark = atom_nz(mkT("ld", mkT("ret", O.name, O.uid), ("[]", L.kappa, "second")))
    mark = next((atom_nz(t) for t in term_subterms(e.args[1]) if t.op == "ld" and show(t) == show(mkT("ld", mkT("ret", O.name, O.uid), ("[]", L.kappa, "second")))), mark)
    idx = mkT("ld", mkT("ret", O.name, O.uid), ("[]", L.kappa, "first"))
    for on in (True, False):
        for t in leaves(under(e.args[1], dd_and(e.pc, mark if on else dd_not(mark)))):
            x = t.args[0] if t.op == "cat" else t
            ctx.check(R, "outliers/mark" if on else "outliers/no-mark", e.where, x.op == "str" and ("x" in x.args[0]) == on, "%s is shown as %s" % ("an outlier" if on else "a record of the context", show(x)))
    for i, rd in enumerate(rds):
        pc = dd_and(e.pc, rd.pc)
        n = leaves(under(O.args[1], dd_and(O.pc, rd.pc)))
        ctx.check(R, "outliers/size-%d" % i, O.where, all(t is leaf_ret(rd, "$v", "$n") for t in n), "the size of the history is " + " or ".join(show(t) for t in n))
        for t in leaves(under(e.args[1], pc)):
            ps = parts_of(t)
            ctx.check(R, "outliers/values-%d" % i, e.where, len(ps) == 4, "the line shows %d values" % len(ps))
            for (x, fmt), k in zip(ps, ("timestamp_sec", "time", "price", "volume")) if len(ps) == 4 else ():
                if k == "time":
                    x, k = shown_time(I, fm, x, pc), "timestamp_sec"
                w = show(mkT("ld", mkT("ret", rd.name, rd.uid), ("$v", "[]", idx, k)))
                ctx.check(R, "outliers/%s-%d" % (k, i), e.where, x is not None and show(x) == w, "the line shows %s as %s" % (show(x) if x is not None else "another value", k))
                if k != "timestamp_sec":
                    ctx.check(R, "outliers/%s-%d/digits" % (k, i), e.where, fmt is not None and fmt[-1] == "f", "shown as %s" % fmt)
    # separators
    prev = [m for m in L.mods if all(show(t) == show(idx) for t in leaves(under(I.load(L.back, m, L.mods[m]), L.back.pc)))]
    if len(rest) != 1 or len(prev) != 1:
        if rest or prev:
            ctx.undec(R, "outliers/separator", L.where, "form of the separators")
        else:
            ctx.check(R, "outliers/separator", L.where, False, "records that do not follow each other are not separated")
        return
    x = rest[0]
    X = V(I.load(L.head, prev[0], L.mods[prev[0]]))
    pc = under(x.pc, dd_and(L.pc, L.cond))
    other = [t for t in term_subterms(pc) if t.op == "mu" and t not in set(term_subterms(X.d))]
    if other:
        ctx.undec(R, "outliers/separator", x.where, "the separator depends on " + show(other[0]))
        return
    asm = dd_and(dd_and(L.pc, L.cond), dd_and((X > 0).d, (V(L.kappa) >= 1).d))
    real = next((t for t in term_subterms(I.load(L.back, prev[0], L.mods[prev[0]])) if show(t) == show(idx)), idx)
    ctx.check(R, "outliers/separator", x.where, differ(x.pc, dd_and((V(real) > X + 1).d, asm), asm) is FALSE, "records are separated when " + short(showdd(pc, 3), 300))


PROPERTIES = {"F13": [f13], "F11": [f11], "F12": [f12], "F03": [f03], "F06": [f06]}
