"""Log lines, stored message formats, times."""
from ..util import *
from ..runner import Anchor
from .. import interp
from .traders import fmt_columns

LOGGER = "trader::CsvLogger"
FIELDS7 = ["timestamp_sec", "open", "high", "low", "close", "volume"]


def written(I, is_stream):
    """The text put on a stream: (diagram of texts, condition under which something is written, in a loop)."""
    d, pc, loop = string(""), FALSE, False
    for e, s, pos in walk(I.ev):
        if e.kind == "out" and e.obj is not None:
            c = dd_and(e.pc, is_stream(e.obj))
            if prune(c) is FALSE:
                continue
            loop = loop or bool(s)
            d = dd_ite(c, dd_apply(lambda a, b: t_cat(a, b), d, e.args[0]), d)
            pc = dd_or(pc, c)
    return d, pc, loop


def elsewhere(I, is_stream):
    """The conditions under which something is put on another stream."""
    out = FALSE
    for e, s, pos in walk(I.ev):
        if e.kind == "out":
            out = dd_or(out, dd_and(e.pc, dd_not(is_stream(e.obj)) if e.obj is not None else TRUE))
    return prune(out)


def field_ptr(g, k):
    return proot(g, k)


def f07(ctx):
    R = "log-line"
    ctx.rule(R, "an exchange log line has 14 comma separated columns and one line end: time, open, high, low, close, volume, base balance, quote balance, total fee, order type and side, "
                "base amount, quote amount and price of the order (empty without an order, and when not set), numbers with at least 3 decimals; a trader log line is the given "
                "text; lines go to the stream of their kind if there is one, and only there")
    c = ctx.fn(LOGGER + "::CsvLogger", 0, pred=lambda f: len(f.d["params"]) == 2)
    I, st, v, rl = run(ctx, c)
    keep = {}
    for loc in list(st.mem):
        if loc[0] == THIS and len(loc) == 2:
            t = single(st.mem[loc])
            if t is not None and t.op in ("arg", "ptr"):
                keep[loc[1]] = t
    pp = [single(x) for x in (mkT("arg", 0), mkT("arg", 1))]
    ex = [k for k, t in keep.items() if show(t) in ("arg(0)", "&" + c.d["params"][0]["n"])]
    tr = [k for k, t in keep.items() if show(t) in ("arg(1)", "&" + c.d["params"][1]["n"])]
    ctx.check(R, "streams", c.where, len(ex) == 1 and len(tr) == 1, "the logger keeps %s" % {k: show(t) for k, t in keep.items()})
    if len(ex) != 1 or len(tr) != 1:
        return
    ex, tr = leaf(THIS, ex[0]), leaf(THIS, tr[0])

    def on(s):
        return lambda o: dd_apply(lambda t: TRUE if t.op == "ld" and t.args[1] == s.args[1] and t.args[0] is s.args[0] else FALSE, o)
    for g in ctx.fn(LOGGER + "::LogExchangeState"):
        has = len(g.d["params"]) == 3
        nm = "order" if has else "no order"
        I, st, v, rl = run(ctx, g)
        if gaps(I):
            ctx.undec(R, nm, g.where, gaps(I)[0])
            continue
        other = elsewhere(I, on(ex))
        ctx.check(R, nm + "/stream", g.where, other is FALSE, "writes to another stream when %s" % short(witness(other)))
        d, pc, loop = written(I, on(ex))
        if loop:
            ctx.undec(R, nm, g.where, "written in a loop")
            continue
        ctx.check(R, nm + "/always", g.where, implies(atom_nz(ex), pc)[0], "a log line is missing although there is a stream")
        tick, acc = proot(g, 0), proot(g, 1)
        want = [leaf(tick, k) for k in FIELDS7] + [leaf(acc, k) for k in ("base_balance", "quote_balance", "total_fee")]
        for lits, t in cubes_of(under(d, dd_and(pc, atom_nz(ex)))):
            cond = cube(lits)
            if cond is FALSE:
                continue
            parts = t.args if t.op == "cat" else (t,)
            lines = "".join(x.args[0] for x in parts if x.op == "str")
            endl = parts[-1].op == "str" and parts[-1].args[0].endswith("\n") and lines.count("\n") == 1
            ctx.check(R, nm + "/line", g.where, endl, "a log line does not end with its only line end")
            if not endl:
                continue
            body = parts[:-1] + ((string(parts[-1].args[0][:-1]),) if len(parts[-1].args[0]) > 1 else ())
            cols = fmt_columns(t_cat(*body)) if len(body) > 1 else fmt_columns(body[0])
            ctx.check(R, nm + "/columns", g.where, len(cols) == 14, "a line has %d columns" % len(cols))
            if len(cols) != 14:
                continue
            for i, w in enumerate(want):
                column_is(ctx, R, "%s/%d" % (nm, i + 1), g.where, cols[i], w, i > 0)
            if not has:
                for i in range(9, 14):
                    ctx.check(R, "%s/%d" % (nm, i + 1), g.where, not cols[i], "column %d is not empty without an order" % (i + 1))
                continue
            o = proot(g, 2)
            for i, k in ((9, "type"), (10, "side")):
                ok = len(cols[i]) == 1 and "enumname" in show(cols[i][0]) and leaf(o, k) in set(term_subterms(cols[i][0])) or len(cols[i]) == 1 and cols[i][0].op == "str"
                ctx.check(R, "%s/%d" % (nm, i + 1), g.where, ok, "column %d is %s" % (i + 1, [show(x) for x in cols[i]]))
            case = message(ctx, "Order")
            for i, k in ((11, "base_amount"), (12, "quote_amount")):
                no = case["fields"][k]["no"]
                isk = t_eq(leaf(o, "case:oneof_amount"), num(no))
                optional(ctx, R, "%s/%d" % (nm, i + 1), g.where, cols[i], leaf(o, k), isk, cond)
            optional(ctx, R, nm + "/14", g.where, cols[13], leaf(o, "price"), (V(leaf(o, "price")) > 0).d, cond)
    g = ctx.fn(LOGGER + "::LogTraderState", 0)
    I, st, v, rl = run(ctx, g)
    if gaps(I):
        ctx.undec(R, "trader", g.where, gaps(I)[0])
        return
    other = elsewhere(I, on(tr))
    ctx.check(R, "trader/stream", g.where, other is FALSE, "writes to another stream when %s" % short(witness(other)))
    d, pc, loop = written(I, on(tr))
    ctx.check(R, "trader/always", g.where, implies(atom_nz(tr), pc)[0], "a trader log line is missing although there is a stream")
    t = single(under(d, dd_and(pc, atom_nz(tr))))
    ok = t is not None and t.op == "cat" and len(t.args) == 2 and t.args[1] is string("\n") and show(t.args[0]) in ("arg(0)", g.d["params"][0]["n"])
    ctx.check(R, "trader/text", g.where, ok, "a trader log line is " + (show(t) if t is not None else short(showdd(d, 2))))


def column_is(ctx, R, inst, where, col, w, real):
    if len(col) != 1:
        ctx.bad(R, inst, where, "the column is %s" % [show(x) for x in col])
        return
    p = col[0]
    x = p.args[1] if p.op == "fmt" else p
    ctx.check(R, inst, where, x is w, "the column shows %s, not %s" % (show(x), show(w)))
    if real:
        ctx.check(R, inst + "/digits", where, p.op == "fmt" and p.args[0].endswith("f") and p.args[0] in ["%%.%df" % k for k in range(3, 10)] + ["%f"], "shown as " + show(p))


def optional(ctx, R, inst, where, col, w, cond, pc):
    """The column shows w exactly when cond holds."""
    if not col:
        ctx.check(R, inst, where, prune(dd_and(pc, cond)) is FALSE, "the column is empty although %s is set" % show(w))
    else:
        ctx.check(R, inst, where, implies(pc, cond)[0], "the column is not empty although %s is not set" % show(w))
        column_is(ctx, R, inst, where, col, w, True)


# ---------------------------------------------------------------- F08
# The layout of the records in files written by this and earlier versions.
STORED = {
    "PriceRecord": {1: ("timestamp_sec", "int64", ""), 2: ("price", "float", ""), 3: ("volume", "float", "")},
    "OhlcTick": {1: ("timestamp_sec", "int64", ""), 2: ("open", "float", ""), 3: ("high", "float", ""), 4: ("low", "float", ""),
                 5: ("close", "float", ""), 6: ("volume", "float", "")},
    "SideInputRecord": {1: ("timestamp_sec", "int64", ""), 2: ("signal", "float", "repeated")},
}
WIRE = {"int32": "varint", "int64": "varint", "uint32": "varint", "uint64": "varint", "bool": "varint", "sint32": "zigzag", "sint64": "zigzag",
        "float": "f32", "double": "f64", "fixed32": "x32", "fixed64": "x64", "sfixed32": "s32", "sfixed64": "s64", "string": "str", "bytes": "str"}


def f08(ctx):
    R = "stored-format"
    ctx.rule(R, "the messages stored in history files keep, for every field, its number, meaning and encoding, and no other field uses those numbers")
    for m, want in sorted(STORED.items()):
        d = message(ctx, m)
        have = {x["no"]: (k, x) for k, x in d["fields"].items()}
        for no, (name, ty, lab) in sorted(want.items()):
            inst = "%s.%s" % (m, name)
            if no not in have:
                ctx.bad(R, inst, d.get("where", "base/base.proto"), "field number %d is gone" % no)
                continue
            k, x = have[no]
            ctx.check(R, inst + "/name", "base/base.proto", k == name, "field number %d is %s" % (no, k))
            ctx.check(R, inst + "/type", "base/base.proto", WIRE.get(x["type"], x["type"]) == WIRE[ty] and wide(x["type"], ty), "%s has type %s" % (name, x["type"]))
            ctx.check(R, inst + "/default", "base/base.proto", x.get("default") in (None, "0", "0.0", 0), "a record without %s reads as %s" % (name, x.get("default")))
            ctx.check(R, inst + "/label", "base/base.proto", (x.get("label") == "repeated") == (lab == "repeated"), "%s is %s" % (name, x.get("label") or "singular"))


        req = sorted(k for k, x in d["fields"].items() if x.get("label") == "required")
        ctx.check(R, m + "/required", "base/base.proto", not req, "records without %s can no longer be read" % ", ".join(req))


def wide(a, b):
    return not (b.endswith("64") and a.endswith("32"))


# ---------------------------------------------------------------- F09, F10
UTC = "absl::UTCTimeZone"
LOCAL = ("absl::LocalTimeZone", "localtime", "localtime_r", "mktime", "timelocal", "ctime", "ctime_r", "std::ctime", "std::localtime", "std::mktime", "tzset",
         "absl::LoadTimeZone", "absl::FixedTimeZone", "strftime", "std::strftime")


def is_utc(d):
    t = single(d)
    return t is not None and t.op.startswith("fn:") and t.op[3:] == UTC or t is not None and show(t).startswith("fn:" + UTC)


def calls_in(x):
    """All calls in a body."""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, dict):
            if isinstance(y.get("fn"), dict) and y["fn"].get("qn"):
                yield y
            stack += list(y.values())
        elif isinstance(y, list):
            stack += y


def f09(ctx):
    R = "utc"
    ctx.rule(R, "no function of the repository uses a time zone other than UTC; adding months converts to civil time in UTC, adds to the month only, and converts back in UTC")
    P = ctx.P()
    n = 0
    for q, fs in sorted(P.byqn.items()):
        for f in fs:
            if not isinstance(f.d.get("body"), dict) or f.d.get("file", "").startswith("/") or f.d.get("file", "").endswith("_test.cc"):
                continue
            for c in calls_in(f.d["body"]):
                g = c["fn"]["qn"]
                n += 1
                if g in LOCAL:
                    ctx.bad(R, "local@" + q, "%s:%s" % (f.d["file"], c.get("l", "?")), "%s uses %s" % (q, g))
                if g == "absl::FormatTime" and len(c["fn"].get("pt", ())) < 2:
                    ctx.bad(R, "format@" + q, "%s:%s" % (f.d["file"], c.get("l", "?")), "%s formats a time in the local time zone" % q)
    ctx.calls += n
    ctx.check(R, "calls", "", n > 0, "no call found")
    R2 = "add-months"
    months(ctx, R2)


def civ(t, name):
    return t.op == "civil" and t.args[0] == name


def months(ctx, R):
    ctx.rule(R, "adding months gives the instant whose civil time in UTC has the same day, hour, minute and second and the month moved by the given number (normalised)")
    for fn in ("trader::AddMonthsToTime", "trader::AddMonthsToTimestampSec"):
        f = ctx.fn(fn, 0)
        I, st, v, rl = run(ctx, f)
        nm = fn.split("::")[-1]
        if gaps(I):
            ctx.undec(R, nm, f.where, gaps(I)[0])
            continue
        ev = [e for e, s, p in walk(I.ev) if e.kind == "call"]
        to = [e for e in ev if e.name == "absl::FromCivil"]
        fr = [e for e in ev if e.name == "absl::ToCivilSecond"]
        t = single(v)
        while t is not None and t.op == "trunc":
            t = t.args[0]
        if len(to) != 1 or len(fr) != 1 or t is None or not (t.op == "ret" and t.args[1] is to[0].uid):
            ctx.undec(R, nm, f.where, "not one conversion to civil time and back")
            continue
        a0, a1 = mkT("arg", 0, isint=True), mkT("arg", 1, isint=True)
        ctx.check(R, nm + "/time", fr[0].where, show(single(fr[0].args[0]) or ZERO) == "arg(0)", "the civil time is of " + short(showdd(fr[0].args[0], 2)))
        ctx.check(R, nm + "/to-utc", fr[0].where, is_utc(fr[0].args[1]), "civil time in " + short(showdd(fr[0].args[1], 2)))
        ctx.check(R, nm + "/from-utc", to[0].where, is_utc(to[0].args[1]), "civil time in " + short(showdd(to[0].args[1], 2)))
        for c in leaves(to[0].args[0]):
            if not (show(c).startswith("ctor:") and len(c.args) == 6):
                ctx.undec(R, nm + "/civil", to[0].where, "civil time " + show(c))
                continue
            # reading a part of the one civil time twice gives the same part
            part = lambda t: mkT("civil", t.args[0].split("::")[-1], isint=True) if t.op == "ret" and "civil_time" in t.args[0] else None
            parts = [subst_term(dd_apply(lambda y: y, x), part) for x in c.args]
            has = {}
            for x in parts:
                for y in term_subterms(x):
                    for k in ("year", "month"):
                        if civ(y, k):
                            has[k] = y
            mths = [y for x in parts for y in term_subterms(x) if show(y) == "arg(1)"]
            for i, k in enumerate(("year", "month", "day", "hour", "minute", "second")):
                if i < 2:
                    continue
                ok = all(civ(x, k) for x in leaves(parts[i]))
                ctx.check(R, "%s/%s" % (nm, k), to[0].where, ok, "the %s of the result is %s" % (k, short(showdd(parts[i], 2))))
            # months are normalised into years: only 12 * year + month counts
            if "month" not in has or "year" not in has or not mths:
                ctx.check(R, nm + "/month", to[0].where, False, "the month of the result is %s" % short(showdd(parts[1], 2)))
            else:
                d = differ((V(parts[0]) * 12 + V(parts[1])).d, (V(has["year"]) * 12 + V(has["month"]) + V(mths[0])).d)
                ctx.check(R, nm + "/month", to[0].where, d is FALSE, "year %s and month %s are not the given number of months later" % (
                    short(showdd(parts[0], 2)), short(showdd(parts[1], 2))))


# the forms util/time.h documents
DOC = ("%Y-%m-%d", "%Y-%m-%d %H:%M:%S", "%Y-%m-%d %Ez", "%Y-%m-%d %H:%M:%S %Ez", "%Y-%m-%d%ET%H:%M:%S%Ez")


def plain_form(f):
    return f.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S").replace("%ET", "T").replace("%E*z", "%Ez")


RFC = {"RFC3339_sec": "%Y-%m-%d%ET%H:%M:%S%Ez", "RFC3339_full": "%Y-%m-%d%ET%H:%M:%E*S%Ez"}


def fmt_text(t):
    if t.op == "str":
        return t.args[0]
    for k, x in RFC.items():
        if k in show(t):
            return x
    return None


def f10(ctx):
    R = "parse-time"
    ctx.rule(R, "a time is the result of parsing the whole text in one of a fixed list of formats, in UTC; the list contains the forms documented in util/time.h and the form in which times are "
                "printed; no other form is in it; an error is returned only if no documented form matches")
    f = ctx.fn("trader::ParseTime", 0)
    I, st, v, rl = run(ctx, f, unroll=16)
    g = ctx.fn("trader::FormatTimeUTC", 0)
    I2, st2, v2, rl2 = run(ctx, g)
    if gaps(I) or gaps(I2):
        ctx.undec(R, "ParseTime", f.where, (gaps(I) + gaps(I2))[0])
        return
    t = single(v2)
    fe = [e for e, s, p in walk(I2.ev) if e.name == "absl::FormatTime"]
    shown = None
    if t is not None and len(fe) == 1 and t.op == "ret" and t.args[1] is fe[0].uid and len(fe[0].args) == 3:
        x = single(fe[0].args[0])
        shown = fmt_text(x) if x is not None else None
        ctx.check(R, "print/time", g.where, show(single(fe[0].args[1]) or ZERO) == "arg(0)", "prints the time " + short(showdd(fe[0].args[1], 2)))
        ctx.check(R, "print/utc", g.where, is_utc(fe[0].args[2]), "times are printed in " + short(showdd(fe[0].args[2], 2)))
    if shown is None:
        ctx.undec(R, "print", g.where, "how times are printed")
    if any(isinstance(x, interp.Loop) for x in I.ev):
        ctx.undec(R, "ParseTime", f.where, "formats tried in a loop without a constant number of turns")
        return
    status = I.load(st, (("ret", 0), "$status"), "?")
    val = I.load(st, (("ret", 0), "$v"), "f")
    ok = dd_apply(lambda t: TRUE if t.op == "status_ok" else FALSE, status)
    fmts = {}
    for lits, x in cubes_of(under(val, ok)):
        if x.op != "parsetime":
            ctx.bad(R, "value", f.where, "the time returned is " + show(x))
            continue
        a = x.args
        text = fmt_text(a[0])
        ctx.check(R, "text", f.where, show(a[1]) == "arg(0)", "parses " + show(a[1]))
        if len(a) > 2:
            ctx.check(R, "zone", f.where, is_utc(a[2]), "parses in the time zone " + show(a[2]))
        if text is None:
            ctx.undec(R, "format", f.where, show(a[0]))
            continue
        fmts[text] = x
        cond = cube(lits)
        good, d = implies(dd_and(cond, ok), atom_nz(mkT("parsetime_ok", *a)))
        ctx.check(R, "parsed/" + text, f.where, good, "a time is returned although the text is not of the form " + text)
        ctx.check(R, "form/" + text, f.where, plain_form(text) in [plain_form(w) for w in DOC], "accepts the form " + text)
    for w in DOC + ((shown,) if shown else ()):
        x = next((fmts[k] for k in sorted(fmts) if plain_form(k) == plain_form(w)), None)
        ctx.check(R, "accepts/" + w, f.where, x is not None, "the form %s is not accepted" % w)
        if x is not None:
            good, d = implies(atom_nz(mkT("parsetime_ok", *x.args)), ok)
            ctx.check(R, "error/" + w, f.where, good, "an error although the text is of the form " + w)


PROPERTIES = {"F07": [f07], "F08": [f08], "F09": [f09], "F10": [f10]}
