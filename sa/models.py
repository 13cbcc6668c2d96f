"""Models of the library surface the repository uses: containers, strings,
smart pointers, callables, iterators, algorithms, streams, status, protobuf
messages.  Everything else is an opaque event whose mutable arguments become
unknown."""
import re
from fractions import Fraction

from .core import *
from .program import strip_tpl
from . import interp as _i

NULL = mkT("null")
MODEL = {}


def ptr(loc):
    return mkT("ptr", loc)


def it(c, i):
    return mkT("it", c, i)


def loc_of(p):
    return _i.loc_of(p)


def model(*names):
    def d(f):
        for n in names:
            MODEL[n] = f
        return f
    return d


SEQ = {"std::vector", "std::deque", "std::list", "std::array", "std::queue", "std::stack", "std::priority_queue",
       "google::protobuf::RepeatedField", "google::protobuf::RepeatedPtrField", "std::initializer_list",
       "std::set", "std::map", "std::unordered_map", "std::unordered_set", "std::multiset", "std::multimap",
       "absl::flat_hash_map", "absl::Span", "absl::InlinedVector", "std::forward_list"}


def split_targs(s):
    """template arguments of a type string"""
    i = s.find("<")
    if i < 0:
        return []
    d = 0
    out, cur = [], ""
    for c in s[i:]:
        if c == "<":
            d += 1
            if d == 1:
                continue
        if c == ">":
            d -= 1
            if d == 0:
                out.append(cur.strip())
                break
        if c == "," and d == 1:
            out.append(cur.strip())
            cur = ""
            continue
        cur += c
    return out


def cstr(st, v):
    """A pointer to a string literal or a constant character array, as its text."""
    def f(t):
        base = t.args[0] if t.op == "it" and t.args[1] is ZERO else t
        if base.op == "ptr":
            x = st.mem.get(base.args[0])
            if isinstance(x, T) and x.op == "str":
                return x
        return t
    return dd_apply(f, v) if isinstance(v, (T, N)) else v


class C:
    """One call."""
    __slots__ = ("I", "st", "e", "name", "obj", "dst", "args", "fn")

    def __init__(self, I, st, e, name, obj, dst):
        self.I, self.st, self.e, self.name, self.obj, self.dst = I, st, e, name, obj, dst
        self.args = e["args"]
        self.fn = e.get("fn") or {}

    def n(self):
        return len(self.args)

    def val(self, i):
        """scalar value of argument i"""
        a = self.args[i]
        return self.I.rv(self.st, a)

    def lv(self, i):
        return self.I.lv(self.st, self.args[i])

    def kind(self, i):
        return self.I.kind(self.args[i].get("t", "?"))

    def any(self, i):
        """scalar DD or pointer to class object"""
        return self.lv(i) if self.kind(i) == "c" else cstr(self.st, self.lv(i) if self.kind(i) == "a" else self.val(i))

    def objkind(self):
        return self.I.kind(self.fn.get("cls", "?"))

    def ov(self):
        """value of a scalar-kind object"""
        k = self.objkind()
        return self.I.loadp(self.st, self.obj, k)

    def oset(self, v):
        self.I.storep(self.st, self.obj, v, self.objkind())

    def uid(self, what=""):
        return mkT("ev", self.name + what, self.I.key("uid", id(self.e), self.I.fr().key))

    def tmpv(self, v, kind):
        loc = self.I.tmp(self.e, "res")
        self.I.store(self.st, loc, v, kind)
        return ptr(loc)

    def ret(self, v, kind=None):
        """return scalar v in the way the call is used (glvalue -> temporary)."""
        if self.e.get("gl"):
            return self.tmpv(v, kind or self.I.kind(self.e["t"]))
        return v


def call(I, st, e, name, obj, dst):
    c = C(I, st, e, name, obj, dst)
    fn = e["fn"]
    m = MODEL.get(name)
    if m is not None:
        r = m(c)
        if r is not NotImplemented:
            return r
    cls = strip_tpl(I.cls(fn["cls"])) if fn.get("method") else None
    short = name.split("::")[-1]
    if cls in I.protomsgs:
        r = proto_method(c, I.protomsgs[cls], short)
        if r is not NotImplemented:
            return r
    if cls in SEQ:
        r = seq_method(c, cls, short)
        if r is not NotImplemented:
            return r
    if cls and (cls.endswith("iterator") or cls.endswith("Iterator")):
        r = iter_method(c, short)
        if r is not NotImplemented:
            return r
    if cls in ("std::basic_string", "std::basic_string_view", "absl::string_view"):
        r = string_method(c, short)
        if r is not NotImplemented:
            return r
    if cls in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr_access", "std::__shared_ptr"):
        r = uptr_method(c, short)
        if r is not NotImplemented:
            return r
    if cls == "std::function" or cls == "std::_Function_base":
        r = function_method(c, short)
        if r is not NotImplemented:
            return r
    if cls in ("std::optional", "absl::optional", "std::_Optional_base_impl"):
        r = optional_method(c, short)
        if r is not NotImplemented:
            return r
    if cls in ("absl::StatusOr", "absl::Status") or (cls and cls.startswith("absl::internal_statusor")):
        r = status_method(c, cls, short)
        if r is not NotImplemented:
            return r
    if cls in ("std::future", "std::shared_future", "std::__basic_future"):
        if short == "get":
            def go(s, p):
                if dst is not None:
                    I.copy_obj(s, loc_of(p) + ("$v",), dst)
                    return None
                return I.load(s, loc_of(p) + ("$v",), I.kind(e["t"]))
            return I.split(st, obj, go)
        return ZERO
    if cls == "std::numeric_limits":
        return limits(c, short)
    if cls and is_stream(cls):
        r = stream_method(c, cls, short)
        if r is not NotImplemented:
            return r
    if short.startswith("operator") and cls is None:
        r = free_operator(c, short)
        if r is not NotImplemented:
            return r
    base = name.split("::")[-1]
    if (name.startswith("std::") or "::" not in name) and base in _i.PURE_MATH:
        return math_call(c, base)
    # a pure free function of scalar values
    return opaque_call(I, st, e, obj, dst)


# ------------------------------------------------------------------ opaque
def opaque_arg(I, c, st, fn, i, a):
    """Argument of a call that is not followed: pointers for objects and mutable
    references, values for scalars and references to constant scalars."""
    pts = fn["pt"]
    if i < len(pts):
        ti = I.tinfo(pts[i])
        if ti["k"] == "r":
            to = ti.get("to", "?")
            kd = I.kind(to)
            const = I.tinfo(to).get("const") or to.startswith("const ")
            p = I.lv(st, a)
            if kd in ("c", "a", "?") or not const:
                return p
            v = I.loadp(st, p, kd)
            return I.to_bool(v) if kd == "b" else v
    return c.any(i) if akind(I, a) != "v" else ZERO


def opaque_call(I, st, e, obj, dst, vals=None):
    fn = e["fn"]
    name = strip_tpl(fn["qn"])
    c = C(I, st, e, name, obj, dst)
    if vals is None:
        vals = []
        for i, a in enumerate(e["args"]):
            vals.append(opaque_arg(I, c, st, fn, i, a))
            if st.pc is FALSE:
                return None
    uid = c.uid()
    ev = I.emit("call", name, st, e, vals, obj)
    ev.uid = uid
    if name in I.stand_in:
        I.stand_in[name](st, e, obj)
        return None
    pts = fn["pt"]
    pure = True
    for i, v in enumerate(vals):
        t = pts[i] if i < len(pts) else e["args"][i].get("t", "?")
        ti = I.tinfo(t)
        if ti["k"] in ("r", "p", "R"):
            to = ti.get("to", "?")
            tt = I.tinfo(to)
            if not (tt.get("const") or to.startswith("const ")) and tt["k"] not in ("F",) and ti["k"] != "R":
                pure = False
                kd = I.kind(to)
                nm = mkT("out", uid, i)

                def hav(s, p, kd=kd, nm=nm):
                    if p.op in ("null", "str", "cat", "lam", "fn"):
                        return
                    if kd in ("c", "a", "?") or p.op == "it":
                        loc = loc_of(p)
                        if p.op == "it":
                            loc = loc[:-1]
                        keep = I.load(s, loc + ("$type",), "s") if I.entries(s, loc)[0] else None
                        I.set_agg(s, loc, ("sym", nm, ()))
                        if isinstance(keep, T) and keep.op == "str":
                            s.mem[loc + ("$type",)] = keep
                    else:
                        x = mkT("out", uid, i, isint=kd in "iue", nn=kd == "u")
                        I.store(s, loc_of(p), atom_nz(x) if kd == "b" else x, kd)
                if isinstance(v, (T, N)):
                    I.split(st, v, hav)
        elif ti["k"] == "c":
            pure = False
    if obj is not None and not fn.get("const"):
        pure = False

        def havo(s, p):
            if p.op == "null":
                return
            loc = loc_of(p)
            if loc[0][0] == "G":
                return
            keep = [(k, v) for k, v in s.mem.items() if k[:len(loc)] == loc and k[-1] == "$type"]
            I.set_agg(s, loc, ("sym", mkT("objafter", uid), ()))
            for k, v in keep:
                s.mem[k] = v
        I.split(st, obj, havo)
    if name in ("exit", "abort", "_exit", "std::exit", "std::abort", "std::terminate", "__assert_fail", "quick_exit",
                "__builtin_unreachable", "absl::base_internal::FatalLog"):
        st.pc = FALSE
        return None
    k = I.kind(e["t"])
    if e.get("gl"):
        return ptr((("D", mkT("retref", name, uid)),))
    if k == "v":
        return None
    if k == "c":
        base = mkT("ret", name, uid)
        if dst is not None:
            I.set_agg(st, dst, ("sym", base, ()))
        return None
    if pure and all(isinstance(v, (T, N)) for v in vals) and obj is None:
        r = dd_apply(lambda *a: mkT("fn:" + name, *a, isint=k in "iue", nn=k == "u", enum=k == "e"), *vals) if vals else \
            mkT("fn:" + name, uid, isint=k in "iue", nn=k == "u")
    else:
        r = mkT("ret", name, uid, isint=k in "iue", nn=k == "u", enum=k == "e")
    ev.res = r
    if k == "b":
        r = dd_apply(atom_nz, r)
    return r


def opaque_callable(I, st, l, loc, vals, dst, node):
    """A callable whose target is unknown."""
    if l.op == "null":
        # calling an empty std::function throws
        I.emit("emptycall", "empty std::function", st, node, vals)
        return ZERO
    uid = mkT("ev", "callback", I.key("uid", id(node), I.fr().key))
    ev = I.emit("callback", "callback", st, node, vals, ptr(loc))
    ev.uid = uid
    ev.res = l
    k = I.kind(node["t"])
    if k == "c" and dst is not None:
        I.set_agg(st, dst, ("sym", mkT("ret", "callback", uid), ()))
        return None
    if k == "v":
        return None
    r = mkT("ret", "callback", l, *[v for v in vals if isinstance(v, (T, N))], isint=k in "iue")
    return dd_apply(atom_nz, r) if k == "b" else r


# ------------------------------------------------------------ construction
def akind(I, a):
    """The kind of an argument: that of the object a reference names."""
    t = a.get("t", "?")
    k = I.kind(t)
    return I.kind(I.deref_t(t)) if k == "r" else k


def ctor_scalar(I, st, e):
    """Constructor expressions of scalar-kind classes."""
    cls = strip_tpl(I.cls(e["t"]))
    args = e["args"]
    k = I.kind(e["t"])
    real = [a for a in args if a["k"] != "defarg"]
    fn = e["fn"]
    if fn.get("ck") in ("copy", "move"):
        v = I.rv(st, args[0])
        if fn.get("ck") == "move" and cls in ("std::unique_ptr",):
            _null_source(I, st, args[0])
        return v
    if cls in ("std::unique_ptr", "std::shared_ptr"):
        if not real:
            return NULL
        v = I.rv(st, real[0])
        if "unique_ptr" in real[0].get("t", "") or "shared_ptr" in real[0].get("t", ""):
            _null_source(I, st, real[0])
        return v
    if cls in ("std::basic_string", "absl::string_view", "std::basic_string_view", "absl::AlphaNum"):
        if not real:
            return string("")
        if len(real) == 1:
            a = real[0]
            ak = akind(I, a)
            if ak in ("s", "p", "f", "i", "u", "b", "e"):
                v = I.rv(st, a)
                if ak == "p":
                    return dd_apply(lambda t: mkT("char*", t) if t.op in ("ptr", "it") else t, cstr(st, v))
                return v
            if ak == "a":
                return I.rv(st, a) if a["k"] == "str" else mkT("chars", I.key("c", id(e)))
            if a.get("k") == "initlist_std":
                return I.unk("string init list", e)
        vs = [I.rv(st, a) if akind(I, a) not in ("c", "a") else I.lv(st, a) for a in real]
        return dd_apply(lambda *t: mkT("strctor", *t), *vs)
    if cls == "absl::str_format_internal::FormatSpecTemplate":
        return I.rv(st, real[0]) if real else string("")
    if cls in ("absl::Time", "absl::Duration"):
        return I.rv(st, real[0]) if real else ZERO
    if cls == "absl::Status":
        if not real:
            return mkT("status_ok")
        if len(real) == 2:
            a, b = I.rv(st, real[0]), I.rv(st, real[1])
            return dd_apply(lambda x, y: mkT("status_ok") if x is ZERO else mkT("status_err", show(x), y), a, b)
        return I.rv(st, real[0])
    if k == "p":
        if not real:
            return NULL
        return I.rv(st, real[0])
    vs = []
    for a in real:
        ak = akind(I, a)
        vs.append(I.lv(st, a) if ak in ("c", "a") else I.rv(st, a))
    return dd_apply(lambda *t: mkT("ctor:" + cls, *t), *vs) if vs else mkT("ctor:" + cls)


def _null_source(I, st, a):
    """move from a smart pointer leaves it empty"""
    while a["k"] in ("mat", "defarg"):
        a = a["e"]
    if a["k"] == "call" and strip_tpl(a["fn"]["qn"]) in ("std::move", "std::forward"):
        p = I.lv(st, a["args"][0])
        I.storep(st, p, NULL, "p")


def ctor_class(I, st, e, loc, cls):
    args = [a for a in e["args"] if a["k"] != "defarg"]
    if cls in I.protomsgs:
        if not args:
            I.set_agg(st, loc, ("zero",))
        else:
            I.from_expr(st, args[0], loc)
        return
    if cls in SEQ:
        return seq_ctor(I, st, e, loc, cls, args)
    if cls in ("std::pair", "std::tuple", "std::_Tuple_impl"):
        I.clear(st, loc)
        st.aggs[loc] = ("zero",)
        I.log((loc, "a"))
        names = ("first", "second") if cls == "std::pair" else [str(i) for i in range(len(args))]
        if len(args) == 1 and cls == "std::pair":
            # converting copy
            p = I.lv(st, args[0])
            I.split(st, p, lambda s, q: I.copy_obj(s, loc_of(q), loc))
            return
        for n, a in zip(names, args):
            elem_init(I, st, loc + (n,), a)
        return
    if cls == "std::function":
        I.clear(st, loc)
        st.aggs[loc] = ("zero",)
        I.log((loc, "a"))
        if args:
            a = args[0]
            k = akind(I, a)
            if k == "c":
                I.from_expr(st, a, loc)
            else:
                I.store(st, loc + ("$fn",), I.rv(st, a), "p")
        return
    if cls in ("std::optional", "absl::optional"):
        if not args or "nullopt" in args[0].get("t", ""):
            I.set_agg(st, loc, ("zero",))
            I.store(st, loc + ("$has",), FALSE, "b")
            return
        a = args[0]
        at = strip_tpl(I.cls(I.deref_t(a.get("t", "?"))))
        if at == cls:
            I.from_expr(st, a, loc)
            return
        I.clear(st, loc)
        st.aggs[loc] = ("zero",)
        I.log((loc, "a"))
        elem_init(I, st, loc + ("$v",), a)
        I.store(st, loc + ("$has",), TRUE, "b")
        return
    if cls == "absl::StatusOr":
        I.clear(st, loc)
        st.aggs[loc] = ("zero",)
        I.log((loc, "a"))
        if not args:
            I.store(st, loc + ("$status",), mkT("status_err", "Unknown", string("")), "x")
            return
        a = args[0]
        t = strip_tpl(I.cls(a.get("t", "?")))
        if t == "absl::Status":
            I.store(st, loc + ("$status",), I.rv(st, a), "x")
        elif t == "absl::StatusOr":
            I.from_expr(st, a, loc)
        else:
            elem_init(I, st, loc + ("$v",), a)
            I.store(st, loc + ("$status",), mkT("status_ok"), "x")
        return
    if cls in ("std::future", "std::shared_future"):
        I.set_agg(st, loc, ("zero",))
        return
    if is_stream(cls):
        I.clear(st, loc)
        st.aggs[loc] = ("sym", mkT("stream", cls, I.key("uid", id(e), I.fr().key)), ())
        I.log((loc, "a"))
        vs = [I.rv(st, a) if akind(I, a) not in ("c", "a") else I.lv(st, a) for a in args]
        ev = I.emit("ctor", cls, st, e, vs, ptr(loc))
        I.store(st, loc + ("$src",), vs[0] if vs else string(""), "s")
        if "fstream" in cls:
            ok = mkT("opened", vs[0] if vs else string(""), I.key("uid", id(e), I.fr().key))
            I.store(st, loc + ("$ok",), atom_nz(ok) if vs else FALSE, "b")
            I.store(st, loc + ("$open",), atom_nz(ok) if vs else FALSE, "b")
        else:
            I.store(st, loc + ("$ok",), TRUE, "b")
            I.store(st, loc + ("$open",), TRUE, "b")
        I.store(st, loc + ("$bad",), FALSE, "b")
        I.store(st, loc + ("$eof",), FALSE, "b")
        return
    # unknown class: opaque object, constructor is an event
    vs = [I.rv(st, a) if akind(I, a) not in ("c", "a") else I.lv(st, a) for a in args]
    if cls.endswith(("IstreamInputStream", "OstreamOutputStream")) and vs:
        # the wrapped stream is read or written later on, and may fail then
        bad = atom_nz(mkT("iobad", I.key("uid", id(e), I.fr().key)))
        I.split(st, vs[0], lambda s, p: I.store(s, loc_of(p) + ("$bad",), bad, "b"))
    I.emit("ctor", cls, st, e, vs, ptr(loc))
    I.set_agg(st, loc, ("sym", mkT("new", cls, I.key("uid", id(e), I.fr().key)), ()))


def elem_init(I, st, loc, a):
    """initialise the object at loc from argument expression a (copy/convert)"""
    k = akind(I, a)
    if k == "r":
        k = I.kind(I.deref_t(a["t"]))
    if k in ("c", "a") and not (k == "a" and a["k"] == "str"):
        I.from_expr(st, a, loc)
    else:
        I.store(st, loc, I.rv(st, a), k if k != "a" else "s")


def elem_construct(I, st, t, loc, args, e):
    """T(args...) at loc, T given by its type string."""
    k = I.kind(t)
    real = [a for a in args if a["k"] != "defarg"]
    cls = strip_tpl(I.cls(t))
    if k != "c":
        if not real:
            I.store(st, loc, NULL if k == "p" else string("") if k == "s" else ZERO, k)
        elif len(real) == 1:
            v = I.rv(st, real[0])
            if "unique_ptr" in t:
                _null_source(I, st, real[0])
            I.store(st, loc, v, k)
        else:
            vs = [I.rv(st, a) for a in real]
            I.store(st, loc, dd_apply(lambda *x: mkT("ctor:" + cls, *x), *vs), k)
        return
    if len(real) == 1:
        at = real[0].get("t", "?")
        if strip_tpl(I.cls(I.deref_t(at))) == cls and at.replace("const ", "") == t.replace("const ", ""):
            return I.from_expr(st, real[0], loc)
    f = None
    for g in I.P.byqn.get(cls + "::" + cls.split("::")[-1], []):
        if len(g.d["params"]) == len(real) and g.d.get("ck") not in ("copy", "move"):
            f = g
    if f is not None and f.qn not in I.opaque:
        vals = I.eval_args(st, f.d, real, e)
        I.clear(st, loc)
        st.aggs[loc] = ("sym", mkT("uninit", ("obj", loc[0])), ())
        I.log((loc, "a"))
        I.store(st, loc + ("$type",), string(cls), "s")
        I.invoke(st, f, ptr(loc), vals, None, ("ctor", id(e)))
        I.store(st, loc + ("$type",), string(cls), "s")
        return
    fake = {"k": "ctor", "t": t, "fn": {"qn": cls + "::" + cls.split("::")[-1], "id": -1, "pt": [], "ck": "other"},
            "args": real, "l": e.get("l", 0)}
    ctor_class(I, st, fake, loc, cls)


# --------------------------------------------------------------- sequences
def n_of(I, st, loc):
    return I.load(st, loc + ("$n",), "u")


def h_of(I, st, loc, cls):
    if cls == "std::deque" or cls in ("std::queue",):
        return I.load(st, loc + ("$h",), "i")
    return ZERO


PQL, PQR = ("P", 0, "pql"), ("P", 1, "pqr")


def seq_ctor(I, st, e, loc, cls, args):
    t = e["t"]
    I.clear(st, loc)
    st.aggs[loc] = ("zero",)
    I.log((loc, "a"))
    args = [a for a in args if strip_tpl(I.cls(a.get("t", "?"))) not in ("std::allocator",)]
    if cls == "std::priority_queue":
        I.store(st, loc + ("$n",), ZERO, "u")
        cmp = None
        if args:
            # the order, on two symbolic elements
            fp = I.lv(st, args[0]) if I.kind(args[0].get("t", "?")) in ("c", "a") else I.rv(st, args[0])
            cmp = invoke_callable(I, st, fp, [ptr((PQL,)), ptr((PQR,))], ["ptr", "ptr"], e, "b")
        I.emit("pq", "ctor", st, e, [string(t), cmp], ptr(loc))
        return
    if not args:
        I.store(st, loc + ("$n",), ZERO, "u")
        return
    if strip_tpl(I.cls(args[0].get("t", "?"))) == "std::initializer_list":
        p = I.rv(st, args[0])
        I.split(st, p, lambda s, q: I.copy_obj(s, loc_of(q), loc))
        return
    if len(args) == 2 and I.kind(args[0].get("t", "?")) == "p":
        b, en = I.rv(st, args[0]), I.rv(st, args[1])
        return copy_range_into(I, st, loc, b, en, e)
    n = I.rv(st, args[0])
    I.store(st, loc + ("$n",), n, "u")
    if len(args) > 1:
        k = I.kind(args[1].get("t", "?"))
        if k == "c":
            p = I.lv(st, args[1])
            if not isinstance(p, N):
                st.aggs[loc + ("[]",)] = ("fill", I.cover(st, loc_of(p)))
        else:
            st.aggs[loc + ("[]",)] = ("fill", ("val", I.rv(st, args[1])))


def copy_range_into(I, st, loc, b, en, e):
    """fresh container at loc := [b, en)"""
    if not isinstance(b, N) and not isinstance(en, N) and b.op == "it" and en.op == "it" and b.args[0] is en.args[0]:
        src = loc_of(b.args[0])
        off = b.args[1]
        cov = I.cover(st, src + ("[]",))
        m, a, x = I.entries(st, src + ("[]",))
        st.aggs[loc + ("[]",)] = cov if off is ZERO else ("shift", cov, off)
        for k, v in m:
            st.mem[loc + ("[]", t_sub(k[0], off)) + k[1:]] = v
            kd = I.kinds.get(src + ("[]",) + k)
            if kd:
                I.kinds[loc + ("[]", t_sub(k[0], off)) + k[1:]] = kd
        for k, v in a:
            if k:
                st.aggs[loc + ("[]", t_sub(k[0], off)) + k[1:]] = v
        if st.idx.get(src + ("[]",)):
            st.idx[loc + ("[]",)] = tuple(t_sub(j, off) for j in st.idx[src + ("[]",)])
        I.log((loc, "a"))
        I.store(st, loc + ("$n",), t_sub(en.args[1], off), "u")
        return
    n = dd_apply(lambda x, y: I.padd(y, x, "-"), b, en)
    I.store(st, loc + ("$n",), n, "u")
    cs = {t.args[0] for d in (b, en) for t in leaves(d) if t.op == "it"}
    if len(cs) == 1 and all(t.op == "it" for d in (b, en) for t in leaves(d)) and next(iter(cs)).op == "ptr":
        src = loc_of(next(iter(cs)))
        m, a, x = I.entries(st, src + ("[]",))
        if not m and not a:
            cov = I.cover(st, src + ("[]",))

            def case(d):
                if isinstance(d, N):
                    return ("ite", mk(d.v, TRUE, FALSE), case(d.hi), case(d.lo))
                return cov if d.args[1] is ZERO else ("shift", cov, d.args[1])
            st.aggs[loc + ("[]",)] = case(b)
            I.log((loc, "a"))
            return
    st.aggs[loc + ("[]",)] = ("sym", mkT("range", b, en), ())
    I.log((loc, "a"))


def access(c, what, loc, cond, extra=None):
    """Record an access obligation: cond must hold whenever the access is reached."""
    I = c.I
    if I.dry:
        return
    acc = getattr(I, "accesses", None)
    if acc is None:
        acc = I.accesses = []
    acc.append({"what": what, "where": I.where(c.e), "pc": c.st.pc, "cond": cond, "loc": loc, "fn": I.fr().f.qn})


def seq_method(c, cls, m):
    I, st, e = c.I, c.st, c.e
    if cls == "std::priority_queue":
        return pq_method(c, m)
    if cls in ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multiset", "std::multimap",
               "absl::flat_hash_map"):
        return map_method(c, cls, m)
    if isinstance(c.obj, N):
        # distribute over the possible containers
        if m in ("size", "empty", "begin", "end", "cbegin", "cend", "front", "back", "at", "operator[]", "data"):
            pre = [c.val(i) for i in range(c.n())]
            return dd_apply(lambda p: _seq1(c, cls, m, loc_of(p), pre), c.obj)
        return I.split(st, c.obj, lambda s, p: seq_method(_with(c, s, p), cls, m))
    loc = loc_of(c.obj)
    if m in ("size", "empty", "begin", "end", "cbegin", "cend", "front", "back", "at", "operator[]", "data", "rbegin",
             "rend", "crbegin", "crend", "Get", "Mutable"):
        pre = [c.val(i) for i in range(c.n())]
        return _seq1(c, cls, m, loc, pre)
    if cls in ("std::queue", "std::stack"):
        m = {"push": "push_back", "emplace": "emplace_back", "top": "back",
             "pop": "pop_front" if cls == "std::queue" else "pop_back"}.get(m, m)
        if m == "back":
            return _seq1(c, cls, m, loc, [])
    h, n = h_of(I, st, loc, cls), n_of(I, st, loc)

    def at_end():
        return dd_apply(t_add, h, n)

    if m in ("push_back", "emplace_back", "Add", "emplace_front", "push_front"):
        et = None
        ta = split_targs(I.cls(c.fn["cls"]))
        et = ta[0] if ta else None
        front = m.endswith("front")
        if m == "push_back" or m == "push_front":
            a = c.args[0]
            tmp = I.tmp(e, "pushed")
            elem_init(I, st, tmp, a)
            k = I.kind(et) if et else I.kind(I.deref_t(a.get("t", "?")))
            if "unique_ptr" in (et or ""):
                _null_source(I, st, a)
        else:
            tmp = I.tmp(e, "pushed")
            elem_construct(I, st, et, tmp, c.args, e)
            k = I.kind(et)
        if st.pc is FALSE:
            return None
        h, n = h_of(I, st, loc, cls), n_of(I, st, loc)
        idx = dd_apply(t_sub, h, ONE) if front else dd_apply(t_add, h, n)

        def put(s, i):
            el = loc + ("[]", i)
            if k == "c":
                I.copy_obj(s, tmp, el)
            else:
                I.store(s, el, I.load(s, tmp, k), k)
        _split_store(I, st, idx, put)
        if front:
            I.store(st, loc + ("$h",), idx, "i")
        I.store(st, loc + ("$n",), dd_apply(t_add, n, ONE), "u")
        return dd_apply(lambda i: ptr(loc + ("[]", i)), idx)
    if m == "pop_back":
        access(c, "pop_back of empty container", loc, dd_apply(lambda x: dd_not(t_lt(x, ONE)), n))
        I.store(st, loc + ("$n",), dd_apply(t_sub, n, ONE), "u")
        return None
    if m == "pop_front":
        access(c, "pop_front of empty container", loc, dd_apply(lambda x: dd_not(t_lt(x, ONE)), n))
        I.store(st, loc + ("$n",), dd_apply(t_sub, n, ONE), "u")
        I.store(st, loc + ("$h",), dd_apply(t_add, h, ONE), "i")
        return None
    if m in ("clear", "Clear"):
        I.store(st, loc + ("$n",), ZERO, "u")
        return None
    if m in ("reserve", "shrink_to_fit", "Reserve"):
        for i in range(c.n()):
            v = c.val(i)
            access(c, "reserve of a negative count", loc, dd_apply(lambda x: dd_not(t_lt(x, ZERO)), v))
        return None
    if m in ("resize", "assign"):
        vs = [c.any(i) for i in range(c.n())]
        if m == "assign" and c.n() == 2 and I.kind(c.args[0].get("t", "?")) == "p":
            I.clear(st, loc + ("[]",))
            return copy_range_into(I, st, loc, vs[0], vs[1], e)
        was0 = n is ZERO
        I.store(st, loc + ("$n",), vs[0], "u")
        if m == "assign" or was0:
            I.clear(st, loc + ("[]",))
            if len(vs) > 1 and c.kind(1) != "c":
                st.aggs[loc + ("[]",)] = ("fill", ("val", vs[1]))
            elif len(vs) > 1 and not isinstance(vs[1], N):
                st.aggs[loc + ("[]",)] = ("fill", I.cover(st, loc_of(vs[1])))
            else:
                st.aggs[loc + ("[]",)] = ("zero",)
            I.log((loc + ("[]",), "a"))
        return None
    if m == "swap":
        o = c.lv(0)
        if isinstance(o, N):
            return NotImplemented
        t = I.tmp(e, "swap")
        I.copy_obj(st, loc, t)
        I.copy_obj(st, loc_of(o), loc)
        I.copy_obj(st, t, loc_of(o))
        return None
    if m == "erase":
        vs = [c.val(i) for i in range(c.n())]
        if all(isinstance(v, T) and v.op == "it" for v in vs) and isinstance(h, T) and isinstance(n, T):
            a = vs[0].args[1]
            b = vs[1].args[1] if len(vs) > 1 else t_add(a, ONE)
            cnt = t_sub(b, a)
            if a is h and cls == "std::deque":
                I.store(st, loc + ("$h",), b, "i")
                I.store(st, loc + ("$n",), t_sub(n, cnt), "u")
                return it(ptr(loc), b)
            if b is t_add(h, n):
                I.store(st, loc + ("$n",), t_sub(n, cnt), "u")
                return it(ptr(loc), a)
            if a is ZERO:
                tl = I.tmp(e, "er")
                I.clear(st, tl)
                copy_range_into(I, st, tl, it(ptr(loc), b), it(ptr(loc), n), e)
                I.copy_obj(st, tl, loc)
                I.store(st, loc + ("$n",), t_sub(n, cnt), "u")
                return it(ptr(loc), ZERO)
        uid = c.uid()
        if len(vs) == 1 and isinstance(vs[0], T) and vs[0].op == "it" and isinstance(n, T):
            # which element, and of how many
            uid = mkT("at", uid, vs[0].args[1], n)
        I.set_agg(st, loc + ("[]",), ("sym", mkT("erased", uid), ()))
        I.store(st, loc + ("$n",), mkT("erasedn", uid, isint=True, nn=True), "u")
        return it(ptr(loc), mkT("erasedi", uid, isint=True))
    if m == "insert" or m == "emplace":
        vs = [c.any(i) for i in range(c.n())]
        uid = c.uid()
        if m == "insert" and len(vs) == 3 and isinstance(vs[0], T) and vs[0].op == "it" and vs[0].args[1] is at_end():
            if n is ZERO:
                I.clear(st, loc + ("[]",))
                copy_range_into(I, st, loc, vs[1], vs[2], e)
                return vs[0]
            b, en = vs[1], vs[2]
            if isinstance(b, T) and isinstance(en, T) and b.op == "it" and en.op == "it":
                k = None
                append_range(I, st, loc, b, en, e)
                return vs[0]
        I.set_agg(st, loc + ("[]",), ("sym", mkT("inserted", uid), ()))
        I.store(st, loc + ("$n",), dd_apply(t_add, n, mkT("insertedn", uid, isint=True, nn=True)), "u")
        return it(ptr(loc), mkT("insertedi", uid, isint=True))
    if m == "operator=":
        a = c.args[0]
        if strip_tpl(I.cls(a.get("t", "?"))) == "std::initializer_list":
            p = I.rv(st, a)
        else:
            p = I.lv(st, a)
        I.assign(st, c.obj, p)
        return c.obj
    if m in ("capacity", "max_size"):
        return mkT("capacity", c.uid(), isint=True, nn=True)
    return NotImplemented


def _with(c, s, p):
    d = C(c.I, s, c.e, c.name, p, c.dst)
    return d


def _split_store(I, st, idx, put):
    if not isinstance(idx, N):
        put(st, idx)
        return
    I.split(st, idx, put)


def append_range(I, st, loc, b, en, e):
    """append [b,en) at the end of a non-empty container: one generic copy loop"""
    i0 = I.tmp(e, "apI")
    I.store(st, i0, b, "p")

    def cond(s):
        return dd_not(dd_apply(I._eq, I.load(s, i0, "p"), en))

    def body(s):
        cur = I.load(s, i0, "p")
        n = n_of(I, s, loc)
        I.split(s, cur, lambda s2, q: I.copy_obj(s2, loc_of(q), loc + ("[]", n)))
        I.store(s, loc + ("$n",), dd_apply(t_add, n, ONE), "u")

    def inc(s):
        I.store(s, i0, dd_apply(lambda t: I._step(t, 1), I.load(s, i0, "p")), "p")

    I.loop(st, e, cond, body, inc, tag="append")


def _seq1(c, cls, m, loc, pre):
    I, st = c.I, c.st
    n = n_of(I, st, loc)
    h = h_of(I, st, loc, cls)
    if m == "size":
        return n
    if m == "empty":
        return dd_apply(lambda x: t_eq(x, ZERO, "cmp"), n)
    if m in ("begin", "cbegin", "data"):
        return dd_apply(lambda x: it(ptr(loc), x), h)
    if m in ("end", "cend"):
        return dd_apply(lambda x, y: it(ptr(loc), t_add(x, y)), h, n)
    if m in ("rbegin", "crbegin"):
        return dd_apply(lambda x, y: mkT("rit", ptr(loc), t_add(x, y)), h, n)
    if m in ("rend", "crend"):
        return dd_apply(lambda x: mkT("rit", ptr(loc), x), h)
    if m == "front":
        access(c, "front of empty container", loc, dd_apply(lambda x: dd_not(t_lt(x, ONE)), n))
        return dd_apply(lambda x: ptr(loc + ("[]", x)), h)
    if m == "back":
        access(c, "back of empty container", loc, dd_apply(lambda x: dd_not(t_lt(x, ONE)), n))
        return dd_apply(lambda x, y: ptr(loc + ("[]", t_sub(t_add(x, y), ONE))), h, n)
    if m in ("at", "operator[]", "Get", "Mutable"):
        access(c, ("checked " if m == "at" else "") + "index out of range", loc,
               dd_apply(lambda i, y: dd_and(dd_not(t_lt(i, ZERO)), t_lt(i, y)), pre[0], n))
        return dd_apply(lambda x, i: ptr(loc + ("[]", t_add(x, i))), h, pre[0])
    return NotImplemented


def pq_method(c, m):
    I, st = c.I, c.st
    if isinstance(c.obj, N):
        return NotImplemented
    loc = loc_of(c.obj)
    n = n_of(I, st, loc)
    if m == "size":
        return n
    if m == "empty":
        return dd_apply(lambda x: t_eq(x, ZERO, "cmp"), n)
    if m in ("push", "emplace"):
        tmp = I.tmp(c.e, "pq")
        et = split_targs(I.cls(c.fn["cls"]))[0]
        if m == "push":
            elem_init(I, st, tmp, c.args[0])
        else:
            elem_construct(I, st, et, tmp, c.args, c.e)
        I.emit("pq", "push", st, c.e, [ptr(tmp)], c.obj)
        I.store(st, loc + ("$n",), dd_apply(t_add, n, ONE), "u")
        I.set_agg(st, loc + ("$top",), ("sym", mkT("pqtop", c.uid()), ()))
        return None
    if m == "pop":
        access(c, "pop of empty container", loc, dd_apply(lambda x: dd_not(t_lt(x, ONE)), n))
        I.emit("pq", "pop", st, c.e, [], c.obj)
        I.store(st, loc + ("$n",), dd_apply(t_sub, n, ONE), "u")
        I.set_agg(st, loc + ("$top",), ("sym", mkT("pqtop", c.uid()), ()))
        return None
    if m == "top":
        access(c, "top of empty container", loc, dd_apply(lambda x: dd_not(t_lt(x, ONE)), n))
        I.emit("pq", "top", st, c.e, [], c.obj)
        return ptr(loc + ("$top",))
    return NotImplemented


def map_method(c, cls, m):
    I, st = c.I, c.st
    if isinstance(c.obj, N):
        return NotImplemented
    loc = loc_of(c.obj)
    if m in ("operator[]", "at"):
        k = c.any(0)
        I.emit("map", m, st, c.e, [k], c.obj)
        return dd_apply(lambda x: ptr(loc + ("[]", mkT("key", x))), k)
    if m in ("begin", "cbegin"):
        return it(ptr(loc), ZERO)
    if m in ("end", "cend"):
        return it(ptr(loc), n_of(I, st, loc))
    if m == "size":
        return n_of(I, st, loc)
    if m == "empty":
        return dd_apply(lambda x: t_eq(x, ZERO, "cmp"), n_of(I, st, loc))
    if m == "find":
        k = c.any(0)
        return dd_apply(lambda x: mkT("mapfind", ptr(loc), x), k)
    if m in ("count", "contains"):
        k = c.any(0)
        r = dd_apply(lambda x: atom_nz(mkT("mapfind", ptr(loc), x)), k)
        return r
    if m in ("insert", "emplace", "insert_or_assign", "try_emplace"):
        vs = [c.any(i) for i in range(c.n())]
        I.emit("map", m, st, c.e, vs, c.obj)
        I.set_agg(st, loc, ("sym", mkT("mapafter", c.uid()), ()))
        if c.dst is not None:
            I.set_agg(st, c.dst, ("sym", mkT("ret", c.name, c.uid()), ()))
        return mkT("ret", c.name, c.uid())
    return NotImplemented


# --------------------------------------------------------------- iterators
def deref_ptr(p):
    if p.op == "rit":
        return ptr(loc_of(p.args[0]) + ("[]", t_sub(p.args[1], ONE)))
    return ptr(loc_of(p))


def it_access(c, t, here):
    """An element is reached through an iterator that is not tied to a container (a parameter, a result)."""
    acc = getattr(c.I, "it_accesses", None)
    if acc is None:
        acc = c.I.it_accesses = []
    acc.append({"it": t, "where": c.I.where(c.e), "pc": dd_and(c.st.pc, here), "fn": c.I.fr().f.qn})


def deref_access(c, v):
    I, st = c.I, c.st
    if I.dry:
        return
    for t in set(leaves(v)) if isinstance(v, N) else {v}:
        if not isinstance(t, T) or t.op not in ("it", "rit") or t.args[0].op != "ptr":
            if isinstance(t, T):
                it_access(c, t, dd_apply(lambda x: TRUE if x is t else FALSE, v))
            continue
        loc = loc_of(t.args[0])
        i = t.args[1] if t.op == "it" else t_sub(t.args[1], ONE)
        here = dd_apply(lambda x: TRUE if x is t else FALSE, v)
        h = I.load(st, loc + ("$h",), "u") if loc + ("$h",) in st.mem else ZERO
        ok = dd_apply(lambda x, n: dd_and(dd_not(t_lt(i, x)), t_lt(i, t_add(x, n))), h, n_of(I, st, loc))
        access(c, "element outside of the range", loc, dd_or(dd_not(here), ok))


def iter_method(c, m):
    I, st = c.I, c.st
    v = c.ov()
    if m in ("operator*", "operator->"):
        deref_access(c, v)
        return dd_apply(deref_ptr, v)
    if m in ("operator++", "operator--"):
        d = 1 if m.endswith("++") else -1
        new = dd_apply(lambda t: step_it(I, t, d), v)
        c.oset(new)
        if c.n():  # postfix
            return v
        return c.obj if c.e.get("gl") else new
    if m in ("operator+", "operator-"):
        b = c.val(0)
        return dd_apply(lambda x, y: padd_it(I, x, y, m[-1]), v, b)
    if m in ("operator+=", "operator-="):
        b = c.val(0)
        c.oset(dd_apply(lambda x, y: padd_it(I, x, y, m[-2]), v, b))
        return c.obj
    if m == "operator[]":
        b = c.val(0)
        deref_access(c, dd_apply(lambda x, y: padd_it(I, x, y, "+"), v, b))
        return dd_apply(lambda x, y: deref_ptr(padd_it(I, x, y, "+")), v, b)
    if m in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
        return I.compare(m[8:], v, c.val(0))
    if m == "operator=":
        b = c.val(0)
        if strip_tpl(I.cls(c.fn["cls"])) == "std::back_insert_iterator":
            return NotImplemented
        c.oset(b)
        return c.obj
    if m == "base":
        return c.ret(v, "p")
    return NotImplemented


def step_it(I, t, d):
    if t.op == "rit":
        return mkT("rit", t.args[0], t_sub(t.args[1], num(d)))
    return I._step(t, d)


def padd_it(I, x, y, op):
    if x.op == "rit" or y.op == "rit":
        if x.op == "rit" and y.op == "rit":
            return t_sub(y.args[1], x.args[1])
        return mkT("rit", x.args[0], t_sub(x.args[1], y) if op == "+" else t_add(x.args[1], y))
    return I.padd(x, y, op)


def free_operator(c, m):
    I, st = c.I, c.st
    op = m[len("operator"):]
    if c.n() == 2 and op in ("==", "!="):
        # an empty std::function compared with nullptr
        ts = [a.get("t", "?") for a in c.args]
        for i, t in enumerate(ts):
            if "nullptr_t" in ts[1 - i] and strip_tpl(I.cls(I.deref_t(t) if I.kind(t) == "r" else t)) == "std::function":
                r = I.to_bool(dd_apply(lambda p: I.load(st, loc_of(p) + ("$fn",), "p"), c.lv(i)))
                return r if op == "!=" else dd_not(r)
    if c.n() == 2 and op in ("==", "!=", "<", ">", "<=", ">=") and c.kind(0) not in ("c", "a") and (c.kind(1) not in ("c", "a") or c.args[1]["k"] == "str"):
        a, b = c.val(0), c.val(1)
        return I.compare(op, a, b)
    if c.n() == 2 and op in ("+", "-", "*", "/") and c.kind(0) not in ("c", "a") and (c.kind(1) not in ("c",)):
        a, b = c.val(0), c.val(1)
        if c.kind(0) == "s" or c.kind(1) == "s":
            return dd_apply(lambda x, y: t_cat(tostr(x), tostr(y)), a, b)
        if op in "+-":
            return dd_apply(lambda x, y: padd_it(I, x, y, op), a, b)
        return dd_apply(t_mul if op == "*" else t_fdiv, a, b)
    if op in ("<<",) and c.n() == 2:
        p = c.lv(0)
        v = c.any(1)
        if is_stream(strip_tpl(I.cls(I.deref_t(c.args[0].get("t", "?"))))) or True:
            return out_op(c, p, v, c.args[1])
    if op == ">>" and c.n() == 2:
        p = c.lv(0)
        return in_op(c, p, c.lv(1), c.kind(1))
    if op == "|" and c.n() == 2:
        a, b = c.val(0), c.val(1)
        return dd_apply(lambda x, y: I.bitop("|", x, y), a, b)
    if op in ("+=", "-=", "*=", "/=") and c.n() == 2 and c.kind(0) not in ("c", "a"):
        p, b = c.lv(0), c.val(1)
        a = I.loadp(st, p, c.kind(0))
        f = {"+": t_add, "-": t_sub, "*": t_mul, "/": t_fdiv}[op[0]]
        I.storep(st, p, dd_apply(f, a, b), c.kind(0))
        return p
    return NotImplemented


def tostr(t):
    return t


# ------------------------------------------------------------------ strings
def string_method(c, m):
    I, st = c.I, c.st
    v = c.ov()
    if m in ("c_str", "data", "operator basic_string", "operator basic_string_view") or m.startswith("operator basic_string") or m.startswith("operator std::") or m.startswith("operator absl::"):
        return v
    if m == "empty":
        return dd_apply(lambda t: t_eq(t, string("")) if t.op != "cat" else FALSE, v)
    if m in ("size", "length"):
        return dd_apply(lambda t: num(len(t.args[0])) if t.op == "str" else mkT("strlen", t, isint=True, nn=True), v)
    if m in ("operator=", "assign"):
        if c.n() == 1:
            b = c.val(0)
            c.oset(b)
            return c.obj
        return NotImplemented
    if m in ("operator+=", "append") and c.n() == 1:
        b = c.val(0)
        c.oset(dd_apply(t_cat, v, b))
        return c.obj
    if m == "push_back":
        b = c.val(0)
        c.oset(dd_apply(lambda x, y: t_cat(x, string(chr(int(y.args[0]))) if is_num(y) else mkT("chr", y)), v, b))
        return None
    if m == "clear":
        c.oset(string(""))
        return None
    if m in ("operator==", "operator!="):
        return I.compare(m[8:], v, c.val(0))
    if m in ("begin", "cbegin"):
        return dd_apply(lambda p: it(p, ZERO), c.obj)
    if m in ("end", "cend"):
        return dd_apply(lambda p, t: it(p, mkT("strlen", t, isint=True, nn=True)), c.obj, v)
    if m in ("find", "rfind", "substr", "compare", "at", "operator[]", "front", "back", "find_first_of",
             "find_last_of", "find_first_not_of", "starts_with", "ends_with"):
        vs = [c.val(i) for i in range(c.n()) if c.args[i]["k"] != "defarg"]
        k = I.kind(c.e["t"])
        r = dd_apply(lambda *t: mkT("str." + m, *t, isint=k in "iu", nn=k == "u"), v, *vs)
        if c.e.get("gl"):
            return c.tmpv(r, "i")
        return dd_apply(atom_nz, r) if k == "b" else r
    if m in ("reserve",):
        return None
    return NotImplemented


# -------------------------------------------------------------- smart pointers
def uptr_method(c, m):
    I, st = c.I, c.st
    v = c.ov() if c.objkind() == "p" else I.loadp(st, c.obj, "p")
    if m in ("get", "operator->"):
        return v
    if m == "operator*":
        return v
    if m == "operator bool":
        return I.to_bool(v)
    if m == "release":
        I.storep(st, c.obj, NULL, "p")
        return v
    if m == "reset":
        nv = c.val(0) if c.n() and c.args[0]["k"] != "defarg" else NULL
        I.storep(st, c.obj, nv, "p")
        return None
    if m == "operator=":
        nv = c.val(0)
        _null_source(I, st, c.args[0])
        I.storep(st, c.obj, nv, "p")
        return c.obj
    if m == "swap":
        o = c.lv(0)
        b = I.loadp(st, o, "p")
        I.storep(st, c.obj, b, "p")
        I.storep(st, o, v, "p")
        return None
    return NotImplemented


@model("std::make_unique", "std::make_shared", "absl::make_unique", "absl::WrapUnique")
def m_make_unique(c):
    if c.name.endswith("WrapUnique"):
        return c.val(0)
    t = c.fn["ta"][0]
    root = ("h", c.I.key("new", id(c.e), c.I.fr().key))
    loc = (root,)
    c.I.declare(root)
    elem_construct(c.I, c.st, t, loc, c.args, c.e)
    return ptr(loc)


# ------------------------------------------------------------------ callables
def function_method(c, m):
    I, st = c.I, c.st
    if m == "operator()":
        vals = I.eval_args(st, c.fn, c.args, c.e)
        return I.call_closure_at(st, c.obj, vals, c.dst, c.e)
    if m == "operator bool" or m == "_M_empty":
        v = dd_apply(lambda p: I.load(st, loc_of(p) + ("$fn",), "p"), c.obj)
        r = I.to_bool(v)
        return r if m != "_M_empty" else dd_not(r)
    if m == "operator=":
        a = c.args[0]
        k = akind(I, a)
        if k == "c":
            p = I.lv(st, a)
            I.assign(st, c.obj, p)
        else:
            v = I.rv(st, a)

            def go(s, p):
                I.set_agg(s, loc_of(p), ("zero",))
                I.store(s, loc_of(p) + ("$fn",), v, "p")
            I.split(st, c.obj, go)
        return c.obj
    return NotImplemented


def optional_method(c, m):
    I, st = c.I, c.st
    if m in ("has_value", "operator bool"):
        return dd_apply(lambda p: I.load(st, loc_of(p) + ("$has",), "b"), c.obj)
    if m in ("value", "operator*", "operator->"):
        return dd_apply(lambda p: ptr(loc_of(p) + ("$v",)), c.obj)
    if m == "reset":
        I.split(st, c.obj, lambda s, p: I.store(s, loc_of(p) + ("$has",), FALSE, "b"))
        return None
    if m == "value_or":
        d = c.any(0)
        k = I.kind(c.e["t"])
        if k == "c":
            return NotImplemented
        return dd_apply(lambda p: dd_ite(I.load(st, loc_of(p) + ("$has",), "b"), I.load(st, loc_of(p) + ("$v",), k), d),
                        c.obj)
    if m in ("operator=", "emplace"):
        a = c.args[0] if c.args else None

        def go(s, p):
            loc = loc_of(p)
            if a is not None and "nullopt" in a.get("t", ""):
                I.store(s, loc + ("$has",), FALSE, "b")
                return
            if m == "emplace" or strip_tpl(I.cls(I.deref_t(a.get("t", "?")))) not in ("std::optional", "absl::optional"):
                if m == "emplace":
                    elem_construct(I, s, split_targs(I.cls(c.fn["cls"]))[0], loc + ("$v",), c.args, c.e)
                else:
                    elem_init(I, s, loc + ("$v",), a)
                I.store(s, loc + ("$has",), TRUE, "b")
            else:
                q = I.lv(s, a)
                I.split(s, q, lambda s2, x: I.copy_obj(s2, loc_of(x), loc))
        I.split(st, c.obj, go)
        return c.obj
    return NotImplemented


# --------------------------------------------------------------------- status
def st_ok(t):
    if t.op == "status_ok":
        return TRUE
    if t.op == "status_err":
        return FALSE
    return atom_nz(mkT("isok", t))


def status_method(c, cls, m):
    I, st = c.I, c.st
    if cls == "absl::Status":
        v = c.ov()
        if m == "ok":
            return dd_apply(st_ok, v)
        if m == "message":
            return dd_apply(lambda t: t.args[1] if t.op == "status_err" else mkT("statusmsg", t), v)
        if m == "ToString":
            return dd_apply(lambda t: mkT("statusstr", t), v)
        if m == "code":
            return dd_apply(lambda t: mkT("statuscode", t, enum=True, isint=True), v)
        if m == "operator=":
            c.oset(c.val(0))
            return c.obj
        if m in ("IgnoreError", "Update"):
            return None
        return NotImplemented
    if m == "ok":
        return dd_apply(lambda p: dd_apply(st_ok, I.load(st, loc_of(p) + ("$status",), "x")), c.obj)
    if m == "status":
        v = dd_apply(lambda p: I.load(st, loc_of(p) + ("$status",), "x"), c.obj)
        return c.ret(v, "x")
    if m in ("value", "operator*", "operator->", "ValueOrDie"):
        def go(p):
            access(c, "value of a failed StatusOr", loc_of(p),
                   dd_apply(st_ok, I.load(st, loc_of(p) + ("$status",), "x")))
            return ptr(loc_of(p) + ("$v",))
        r = dd_apply(go, c.obj)
        if not c.e.get("gl") and c.dst is not None:
            I.split(st, r, lambda s, q: I.copy_obj(s, loc_of(q), c.dst))
            return None
        return r
    if m == "operator=":
        a = c.args[0]
        t = strip_tpl(I.cls(I.deref_t(a.get("t", "?"))))

        def go2(s, p):
            loc = loc_of(p)
            if t == "absl::Status":
                I.store(s, loc + ("$status",), I.rv(s, a), "x")
            elif t == "absl::StatusOr":
                q = I.lv(s, a)
                I.split(s, q, lambda s2, x: I.copy_obj(s2, loc_of(x), loc))
            else:
                elem_init(I, s, loc + ("$v",), a)
                I.store(s, loc + ("$status",), mkT("status_ok"), "x")
        I.split(st, c.obj, go2)
        return c.obj
    return NotImplemented


@model("absl::OkStatus")
def m_ok(c):
    return mkT("status_ok")


def _err(code):
    def f(c):
        v = c.val(0)
        return dd_apply(lambda t: mkT("status_err", code, t), v)
    return f


for _c in ("InvalidArgument", "FailedPrecondition", "Aborted", "NotFound", "Internal", "OutOfRange", "Unknown",
           "DataLoss", "Unavailable", "AlreadyExists", "PermissionDenied", "Unimplemented", "Cancelled",
           "ResourceExhausted", "DeadlineExceeded", "Unauthenticated"):
    MODEL["absl::%sError" % _c] = _err(_c)


# ----------------------------------------------------------------- math, misc
def math_call(c, b):
    I = c.I
    if b[-1] == "f" and b[:-1] in ("floor", "ceil", "round", "sqrt", "exp", "log", "pow", "fabs", "expm1", "log1p", "exp2", "log2", "log10"):
        b = b[:-1]
    if b in ("abs", "fabs", "labs", "llabs"):
        return dd_apply(lambda t: dd_ite(t_lt(t, ZERO), t_neg(t), t), c.val(0))
    if b in ("fmin", "fmax"):
        x, y = c.val(0), c.val(1)
        lt = dd_apply(t_lt, x, y)
        return dd_ite(lt, x, y) if b == "fmin" else dd_ite(lt, y, x)
    vs = [c.val(i) for i in range(c.n())]
    k = I.kind(c.e["t"])
    if b in ("isnan", "isfinite", "isinf", "signbit"):
        return dd_apply(lambda t: (TRUE if b == "isnan" else FALSE) if is_nan(t) else atom_nz(mkT(b, t)), vs[0])
    if b == "trunc":
        return dd_apply(lambda t: mkT("trunc", t, isint=True), vs[0])
    if b in ("lround", "llround", "nearbyint", "rint"):
        return dd_apply(lambda t: t_fun("round" if "round" in b else b, t), vs[0])
    return dd_apply(lambda *t: t_fun(b, *t, isint=k in "iu"), *vs)


def _lowest(c):
    return c


def limits(c, m):
    t = split_targs(c.I.cls(c.fn["cls"]))[0]
    ti = c.I.tinfo(t)
    k, w = ti.get("k"), ti.get("w", 32)
    if k == "f":
        mx = Fraction(2 - Fraction(1, 2**23)) * 2**127 if w == 32 else Fraction(2 - Fraction(1, 2**52)) * 2**1023
        if m == "max":
            return num(mx)
        if m == "lowest":
            return num(-mx)
        if m == "min":
            return num(Fraction(1, 2**126) if w == 32 else Fraction(1, 2**1022))
        if m == "epsilon":
            return num(Fraction(1, 2**23) if w == 32 else Fraction(1, 2**52))
        if m == "infinity":
            return mkT("fspecial", "inf")
        return mkT("fspecial", m)
    if k in ("i", "u"):
        if m == "max":
            return num(2**(w - (1 if k == "i" else 0)) - 1)
        if m in ("min", "lowest"):
            return num(-2**(w - 1) if k == "i" else 0)
    return mkT("limits", m, string(t))


def _minmax(c, ismin):
    I, st = c.I, c.st
    k = I.kind(c.e["t"])
    if c.n() >= 1 and c.args[0].get("k") == "initlist_std" or strip_tpl(I.cls(c.args[0].get("t", "?"))) == "std::initializer_list":
        p = I.rv(st, c.args[0])
        loc = loc_of(p)
        n = n_of(I, st, loc)
        if not is_num(n):
            return NotImplemented
        vs = [I.load(st, loc + ("[]", num(i)), k) for i in range(int(n.args[0]))]
    else:
        if c.n() != 2 or c.kind(0) == "c":
            return NotImplemented
        vs = [c.val(0), c.val(1)]
    r = vs[0]
    for v in vs[1:]:
        lt = dd_apply(t_lt, r, v)
        r = dd_ite(lt, r, v) if ismin else dd_ite(lt, v, r)
    return c.ret(r, k)


@model("std::min")
def m_min(c):
    return _minmax(c, True)


@model("std::max")
def m_max(c):
    return _minmax(c, False)


@model("std::clamp")
def m_clamp(c):
    if c.n() != 3:
        return NotImplemented
    x, lo, hi = c.val(0), c.val(1), c.val(2)
    r = dd_ite(dd_apply(t_lt, x, lo), lo, dd_ite(dd_apply(t_lt, hi, x), hi, x))
    return c.ret(r)


@model("std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref", "std::__addressof")
def m_move(c):
    if c.n() != 1:
        # std::move(first, last, out)
        return m_copy(c)
    return c.lv(0)


@model("std::swap")
def m_swap(c):
    I, st = c.I, c.st
    a, b = c.lv(0), c.lv(1)
    k = c.kind(0)
    if k == "c":
        if isinstance(a, N) or isinstance(b, N):
            return NotImplemented
        t = I.tmp(c.e, "swap")
        I.copy_obj(st, loc_of(a), t)
        I.copy_obj(st, loc_of(b), loc_of(a))
        I.copy_obj(st, t, loc_of(b))
        return None
    x, y = I.loadp(st, a, k), I.loadp(st, b, k)
    I.storep(st, a, y, k)
    I.storep(st, b, x, k)
    return None


@model("std::exchange")
def m_exchange(c):
    I, st = c.I, c.st
    k = c.kind(0)
    if k == "c":
        return NotImplemented
    p = c.lv(0)
    v = c.val(1)
    old = I.loadp(st, p, k)
    I.storep(st, p, v, k)
    return old


@model("std::distance")
def m_distance(c):
    a, b = c.val(0), c.val(1)
    return dd_apply(lambda x, y: padd_it(c.I, y, x, "-"), a, b)


@model("std::next", "std::prev")
def m_next(c):
    a = c.val(0)
    n = c.val(1) if c.n() > 1 else ONE
    op = "+" if c.name.endswith("next") else "-"
    return dd_apply(lambda x, y: padd_it(c.I, x, y, op), a, n)


@model("std::advance")
def m_advance(c):
    p = c.lv(0)
    n = c.val(1)
    v = c.I.loadp(c.st, p, "p")
    c.I.storep(c.st, p, dd_apply(lambda x, y: padd_it(c.I, x, y, "+"), v, n), "p")
    return None


@model("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::empty", "std::rbegin", "std::rend")
def m_begin(c):
    I = c.I
    p = c.lv(0)
    cls = strip_tpl(I.cls(I.deref_t(c.args[0].get("t", "?"))))
    m = c.name.split("::")[-1]
    return dd_apply(lambda q: _seq1(c, cls, m, loc_of(q), []), p)


@model("std::make_pair", "std::make_tuple")
def m_make_pair(c):
    names = ("first", "second") if c.name.endswith("pair") else [str(i) for i in range(c.n())]
    dst = c.dst if c.dst is not None else c.I.tmp(c.e)
    c.I.clear(c.st, dst)
    c.st.aggs[dst] = ("zero",)
    c.I.log((dst, "a"))
    for n, a in zip(names, c.args):
        elem_init(c.I, c.st, dst + (n,), a)
    return ptr(dst)


@model("std::tie", "std::forward_as_tuple")
def m_tie(c):
    dst = c.dst if c.dst is not None else c.I.tmp(c.e)
    c.I.set_agg(c.st, dst, ("zero",))
    for i in range(c.n()):
        c.I.store(c.st, dst + ("ref%d" % i,), c.lv(i), "p")
    c.I.store(c.st, dst + ("$tie",), num(c.n()), "i")
    return ptr(dst)


@model("std::tuple::operator=", "std::pair::operator=")
def m_tuple_assign(c):
    I, st = c.I, c.st
    if isinstance(c.obj, N):
        return NotImplemented
    loc = loc_of(c.obj)
    n = st.mem.get(loc + ("$tie",))
    rp = c.lv(0)
    if n is None:
        I.assign(st, c.obj, rp)
        return c.obj
    n = int(n.args[0])
    ta = split_targs(I.cls(c.fn["cls"]))
    vals = []
    for i in range(n):
        t = ta[i].rstrip("&").strip()
        k = I.kind(t)
        src = strip_tpl(I.cls(I.deref_t(c.args[0].get("t", "?"))))
        f = ("first", "second")[i] if src == "std::pair" else str(i)
        dstp = st.mem[loc + ("ref%d" % i,)]
        if k == "c":
            I.split(st, rp, lambda s, q, f=f, dstp=dstp: I.split(
                s, dstp, lambda s2, d: I.copy_obj(s2, loc_of(q) + (f,), loc_of(d))))
        else:
            v = dd_apply(lambda q, f=f, k=k: I.load(st, loc_of(q) + (f,), k), rp)
            I.storep(st, dstp, v, k)
    return c.obj


@model("std::get")
def m_get(c):
    I = c.I
    ta = c.fn.get("ta") or ["0"]
    p = c.lv(0)
    src = strip_tpl(I.cls(I.deref_t(c.args[0].get("t", "?"))))
    i = ta[0]
    f = i
    if src == "std::pair" and i in ("0", "1"):
        f = ("first", "second")[int(i)]
    if src == "std::array":
        return dd_apply(lambda q: ptr(loc_of(q) + ("[]", num(int(i)))), p)
    return dd_apply(lambda q: ptr(loc_of(q) + (f,)), p)


# ----------------------------------------------------------------- algorithms
def elem_arg(I, p):
    return p


def call_fn_arg(c, i, vals, kind="b", node=None):
    """invoke callable argument i with pointer values; parameters that are by-value
    scalars get the loaded value."""
    I, st = c.I, c.st
    fp = c._fp[i] if hasattr(c, "_fp") else None
    return None


def invoke_callable(I, st, fp, argptrs, argkinds, node, retkind):
    """Invoke callable (pointer DD to closure) on element pointers."""
    def go(s, p):
        if p.op == "fn":
            tu, fn = p.tag
            pts = fn["pt"]
            vals = conv(s, pts)
            return I.call_fn_term(s, p, vals, None, node)
        loc = loc_of(p)
        w = I.load(s, loc + ("$fn",), "p")

        def go2(s2, l):
            if l.op == "lam":
                n = I.P.lams.get(l.args)
                if n is None:
                    return I.unk("lambda", node)
                d = n["op"] if not n.get("generic") else (n["insts"][0] if n.get("insts") else None)
                if d is None:
                    return I.unk("generic lambda", node)
                pts = [x["t"] for x in d["params"]]
                return I.call_lam(s2, l, loc, conv(s2, pts), None, node)
            if l.op == "fn":
                return I.call_fn_term(s2, l, conv(s2, l.tag[1]["pt"]), None, node)
            # functor class with operator()
            return I.unk("callable", node)
        return I.split(s, w, go2)

    def conv(s, pts):
        vals = []
        for i, t in enumerate(pts):
            a, ak = argptrs[i], argkinds[i]
            k = I.kind(t)
            if ak == "val":
                if k == "r":
                    tl = (("t", I.key("cv", id(node), i, I.fr().key)),)
                    I.store(s, tl, a, I.kind(I.deref_t(t)))
                    vals.append(ptr(tl))
                else:
                    vals.append(a)
            else:
                if k in ("r", "c"):
                    vals.append(a)
                else:
                    vals.append(I.loadp(s, a, k))
        return vals

    r = I.split(st, fp, go)
    if retkind == "b" and r is not None:
        r = I.to_bool(r)
    return r


def bound_elem(c, b):
    """pointer to a symbolic element of the range starting at iterator b"""
    i = mkT("bound", 0, isint=True, nn=True)
    return dd_apply(lambda x: ptr(loc_of(x.args[0]) + ("[]", i)) if x.op == "it" else ptr((("D", mkT("elem", x, i)),)), b)


def _pp(c, upper):
    I, st = c.I, c.st
    b, e = c.val(0), c.val(1)
    key = c.any(2)
    kk = c.kind(2)
    el = bound_elem(c, b)
    if c.n() > 3:
        fp = c.lv(3)
        kk2 = "ptr" if kk == "c" else "val"
        args = ([key, el], [kk2, "ptr"]) if upper else ([el, key], ["ptr", kk2])
        pr = invoke_callable(I, st, fp, args[0], args[1], c.e, "b")
        if pr is None:
            return I.unk("comparator", c.e)
        pred = dd_not(pr) if upper else pr
    else:
        et = I.kind(I.deref_t(c.args[2].get("t", "?")))
        if kk == "c":
            # operator< on class values: not needed
            return I.unk("lower_bound on class values", c.e)
        ev = I.loadp(st, el, kk)
        pred = dd_not(dd_apply(I._lt, key, ev)) if upper else dd_apply(I._lt, ev, key)
    return partition(I, b, e, pred)


def partition(I, b, e, pred):
    def f(x, y):
        if x.op == "it":
            return it(x.args[0], mkT("pp", x.args[1], y.args[1] if y.op == "it" else y, pred, isint=True))
        return mkT("ppit", x, y, pred)
    return dd_apply(f, b, e)


@model("std::lower_bound")
def m_lower(c):
    return _pp(c, False)


@model("std::upper_bound")
def m_upper(c):
    return _pp(c, True)


@model("std::partition_point")
def m_ppoint(c):
    b, e = c.val(0), c.val(1)
    fp = c.lv(2)
    pred = invoke_callable(c.I, c.st, fp, [bound_elem(c, b)], ["ptr"], c.e, "b")
    return partition(c.I, b, e, pred)


def range_loop(c, b, e, body, tag, st=None, post=None):
    """generic loop over [b, e): body(s, elemptr)"""
    I = c.I
    st = st or c.st
    i0 = I.tmp(c.e, "it" + tag)
    I.store(st, i0, b, "p")

    def cond(s):
        return dd_not(dd_apply(I._eq, I.load(s, i0, "p"), e))

    def bd(s):
        cur = I.load(s, i0, "p")
        body(s, dd_apply(deref_ptr, cur))

    def inc(s):
        I.store(s, i0, dd_apply(lambda t: step_it(I, t, 1), I.load(s, i0, "p")), "p")

    I.loop(st, c.e, cond, bd, inc, tag=tag)
    return i0


@model("std::for_each")
def m_for_each(c):
    b, e = c.val(0), c.val(1)
    fp = c.lv(2)
    range_loop(c, b, e, lambda s, p: invoke_callable(c.I, s, fp, [p], ["ptr"], c.e, "v"), "fe")
    if c.dst is not None:
        c.I.split(c.st, fp, lambda s, q: c.I.copy_obj(s, loc_of(q), c.dst))
    return None


@model("std::accumulate", "std::reduce")
def m_accumulate(c):
    I, st = c.I, c.st
    b, e = c.val(0), c.val(1)
    k = I.kind(c.e["t"])
    if k == "c":
        return NotImplemented
    acc = I.tmp(c.e, "acc")
    I.store(st, acc, c.val(2) if c.n() > 2 else ZERO, k)
    fp = c.lv(3) if c.n() > 3 else None

    def body(s, p):
        a = I.load(s, acc, k)
        if fp is None:
            v = I.arith("+", a, I.loadp(s, p, k), c.e["t"], node=c.e)
        else:
            v = invoke_callable(I, s, fp, [a, p], ["val", "ptr"], c.e, k)
        I.store(s, acc, v, k)
    range_loop(c, b, e, body, "acc")
    return I.load(st, acc, k)


def _quant(c, mode):
    I, st = c.I, c.st
    b, e = c.val(0), c.val(1)
    fp = c.lv(2)
    i = mkT("bound", 0, isint=True, nn=True)
    el = bound_elem(c, b)
    pred = invoke_callable(I, st, fp, [el], ["ptr"], c.e, "b")
    return b, e, pred


@model("std::any_of", "std::none_of", "std::all_of")
def m_any(c):
    m = c.name.split("::")[-1]
    I, st = c.I, c.st
    b, e = c.val(0), c.val(1)
    fp = c.lv(2)
    res = I.tmp(c.e, "q")
    I.store(st, res, FALSE if m == "any_of" else TRUE, "b")

    def body(s, p):
        r = invoke_callable(I, s, fp, [p], ["ptr"], c.e, "b")
        hit = r if m != "all_of" else dd_not(r)
        def brk(x):
            I.store(x, res, TRUE if m == "any_of" else FALSE, "b")
            I.fr().brk[-1].append(x.clone())
            x.pc = FALSE
        I.branch(s, hit, brk, lambda x: None)
    range_loop(c, b, e, body, m)
    return I.load(st, res, "b")


@model("std::find_if", "std::find_if_not", "std::find")
def m_find_if(c):
    I, st = c.I, c.st
    m = c.name.split("::")[-1]
    b, e = c.val(0), c.val(1)
    if m == "find":
        key = c.any(2)
        kk = c.kind(2)
        if kk == "c":
            return NotImplemented
    else:
        fp = c.lv(2)
    res = I.tmp(c.e, "fi")
    I.store(st, res, e, "p")
    i0 = I.tmp(c.e, "itfi")

    def body(s, p):
        if m == "find":
            r = dd_apply(I._eq, I.loadp(s, p, kk), key)
        else:
            r = invoke_callable(I, s, fp, [p], ["ptr"], c.e, "b")
        hit = r if m != "find_if_not" else dd_not(r)

        def brk(x):
            I.store(x, res, I.load(x, i0, "p"), "p")
            I.fr().brk[-1].append(x.clone())
            x.pc = FALSE
        I.branch(s, hit, brk, lambda x: None)
    range_loop(c, b, e, body, "fi")
    return I.load(st, res, "p")


@model("std::count_if", "std::count")
def m_count_if(c):
    I, st = c.I, c.st
    b, e = c.val(0), c.val(1)
    if c.name.endswith("_if"):
        fp = c.lv(2)
    else:
        key = c.val(2)
        kk = c.kind(2)
    res = I.tmp(c.e, "cnt")
    I.store(st, res, ZERO, "i")

    def body(s, p):
        r = invoke_callable(I, s, fp, [p], ["ptr"], c.e, "b") if c.name.endswith("_if") else dd_apply(
            I._eq, I.loadp(s, p, kk), key)
        a = I.load(s, res, "i")
        I.store(s, res, dd_ite(r, dd_apply(t_add, a, ONE), a), "i")
    range_loop(c, b, e, body, "cnt")
    return I.load(st, res, "i")


def out_put(I, st, op, src, kind, node):
    """*out = src; ++out  for output iterator value op (held at loc)."""


@model("std::copy", "std::copy_n", "std::copy_if", "std::transform", "std::remove_copy_if")
def m_copy(c):
    I, st, e = c.I, c.st, c.e
    m = c.name.split("::")[-1]
    b = c.val(0)
    if m == "copy_n":
        n = c.val(1)
        en = dd_apply(lambda x, y: padd_it(I, x, y, "+"), b, n)
    else:
        en = c.val(1)
    out = c.val(2)
    fp = c.lv(3) if m in ("copy_if", "transform", "remove_copy_if") else None
    if m == "transform" and c.n() > 4:
        return NotImplemented
    # element type of the source
    et = iter_elem_type(I, c.args[0])
    k = I.kind(et) if et else "c"
    outt = strip_tpl(I.cls(c.args[2].get("t", "?")))
    if isinstance(out, N):
        return NotImplemented
    if m == "copy" and out.op == "backins" and isinstance(b, T) and isinstance(en, T):
        dst = loc_of(out.args[0])
        if n_of(I, st, dst) is ZERO:
            I.clear(st, dst + ("[]",))
            copy_range_into(I, st, dst, b, en, e)
            return out
    o0 = I.tmp(e, "out")
    I.store(st, o0, out, "p")

    def body(s, p):
        if m in ("copy_if", "remove_copy_if"):
            r = invoke_callable(I, s, fp, [p], ["ptr"], e, "b")
            if m == "remove_copy_if":
                r = dd_not(r)
            I.branch(s, r, lambda x: put(x, p), lambda x: None)
        elif m == "transform":
            rl = I.tmp(e, "tr")
            v = invoke_callable_into(I, s, fp, [p], e, rl)
            put(s, v)
        else:
            put(s, p)

    def put(s, p):
        o = I.load(s, o0, "p")

        def go(s2, ot):
            if ot.op == "backins":
                dl = loc_of(ot.args[0])
                n2 = n_of(I, s2, dl)
                _split_store(I, s2, n2, lambda s3, i: cp(s3, p, dl + ("[]", i)))
                I.store(s2, dl + ("$n",), dd_apply(t_add, n2, ONE), "u")
            else:
                cp(s2, p, loc_of(ot))
                I.store(s2, o0, step_it(I, ot, 1), "p")
        I.split(s, o, go)

    def cp(s, p, dl):
        if isinstance(p, tuple):
            I.store(s, dl, p[0], p[1])
        elif k == "c":
            I.split(s, p, lambda s4, q: I.copy_obj(s4, loc_of(q), dl))
        else:
            I.store(s, dl, I.loadp(s, p, k), k)
    range_loop(c, b, en, body, "cp")
    return I.load(st, o0, "p")


def invoke_callable_into(I, st, fp, ptrs, node, rl):
    w = dd_apply(lambda p: I.load(st, loc_of(p) + ("$fn",), "p") if p.op != "fn" else p, fp)
    if isinstance(w, T) and w.op == "lam":
        n = I.P.lams.get(w.args)
        d = n["op"] if n and not n.get("generic") else None
        if d is not None:
            rk = I.kind(d["ret"])
            vals = []
            for x, p in zip(d["params"], ptrs):
                pk = I.kind(x["t"])
                vals.append(p if pk in ("r", "c") else I.loadp(st, p, pk))
            r = I.call_lam(st, w, loc_of(fp), vals, rl, node)
            if rk == "c":
                return ptr(rl)
            if rk == "r":
                return r
            return (r, rk)
    return (I.unk("callable result", node), "?")


def iter_elem_type(I, a):
    t = I.cls(a.get("t", "?"))
    ta = split_targs(t)
    if ta:
        x = ta[0]
        if x.endswith("*"):
            x = x[:-1].strip()
        if x.startswith("const "):
            x = x[6:]
        return x
    ti = I.tinfo(a.get("t", "?"))
    if ti.get("k") == "p":
        return ti["to"]
    return None


@model("std::back_inserter")
def m_back_inserter(c):
    return dd_apply(lambda p: mkT("backins", p), c.lv(0))


@model("std::sort", "std::stable_sort", "std::reverse", "std::partial_sort", "std::nth_element", "std::shuffle")
def m_sort(c):
    I, st = c.I, c.st
    b, e = c.val(0), c.val(1)
    fp = c.lv(2) if c.n() > 2 and c.kind(2) == "c" else None
    pred = None
    if fp is not None and isinstance(b, T) and b.op == "it":
        i, j = mkT("bound", 0, isint=True, nn=True), mkT("bound", 1, isint=True, nn=True)
        base = loc_of(b.args[0])
        pred = invoke_callable(I, st, fp, [ptr(base + ("[]", i)), ptr(base + ("[]", j))], ["ptr", "ptr"], c.e, "b")
    I.emit("algo", c.name, st, c.e, [b, e, pred if pred is not None else NULL])
    if isinstance(b, T) and b.op == "it":
        loc = loc_of(b.args[0])
        I.set_agg(st, loc + ("[]",), ("sym", mkT(c.name, c.uid()), ()))
    return None


@model("std::replace", "std::fill", "std::iota", "std::generate", "std::replace_if")
def m_fill(c):
    I, st = c.I, c.st
    b, e = c.val(0), c.val(1)
    vs = [c.any(i) for i in range(2, c.n())]
    I.emit("algo", c.name, st, c.e, [b, e] + vs)
    if isinstance(b, T) and b.op == "it":
        p = b.args[0]
        loc = loc_of(p)
        kd = I.kinds.get(loc)
        if kd == "s":
            old = I.load(st, loc, "s")
            I.store(st, loc, dd_apply(lambda t, *r: mkT("strreplace", t, *r), old, *vs), "s")
        elif c.name == "std::fill" and vs:
            I.set_agg(st, loc + ("[]",), ("fill", ("val", vs[0])))
        else:
            I.set_agg(st, loc + ("[]",), ("sym", mkT(c.name, c.uid()), ()))
    return None


@model("std::max_element", "std::min_element")
def m_max_element(c):
    I, st = c.I, c.st
    b, e = c.val(0), c.val(1)
    nm = c.name.split("::")[-1]
    return dd_apply(lambda x, y: it(x.args[0], mkT(nm, x, y, c.uid(), isint=True)) if x.op == "it" else mkT(nm, x, y), b, e)


def _pairs(c, nm, b, e, fp):
    """is_sorted, adjacent_find: consecutive pairs are looked at, first to last, up to the first hit."""
    I, st = c.I, c.st
    res, i0 = I.tmp(c.e, "pr"), I.tmp(c.e, "itpr")
    kd = "b" if nm == "is_sorted" else "p"
    I.store(st, res, TRUE if nm == "is_sorted" else e, kd)
    I.store(st, i0, b, "p")

    def cond(s):
        return dd_apply(lambda t: t_lt(t_add(t.args[1], ONE), e.args[1]), I.load(s, i0, "p"))

    def body(s):
        cur = I.load(s, i0, "p")
        nxt = dd_apply(lambda t: step_it(I, t, 1), cur)
        ps = [dd_apply(deref_ptr, cur), dd_apply(deref_ptr, nxt)]
        hit = invoke_callable(I, s, fp, ps[::-1] if nm == "is_sorted" else ps, ["ptr", "ptr"], c.e, "b")

        def brk(x):
            I.store(x, res, FALSE if nm == "is_sorted" else I.load(x, i0, "p"), kd)
            I.fr().brk[-1].append(x.clone())
            x.pc = FALSE
        I.branch(s, hit, brk, lambda x: None)

    def inc(s):
        I.store(s, i0, dd_apply(lambda t: step_it(I, t, 1), I.load(s, i0, "p")), "p")
    I.loop(st, c.e, cond, body, inc, tag=nm)
    return I.load(st, res, kd)


@model("std::is_sorted", "std::equal", "std::adjacent_find", "std::is_sorted_until")
def m_is_sorted(c):
    I, st = c.I, c.st
    b, e = c.val(0), c.val(1)
    i, j = mkT("bound", 0, isint=True, nn=True), mkT("bound", 1, isint=True, nn=True)
    pred = NULL
    nm = c.name.split("::")[-1]
    if nm in ("is_sorted", "adjacent_find") and c.n() == 3 and c.kind(2) == "c" and all(isinstance(x, T) and x.op == "it" and isinstance(x.args[1], T) for x in (b, e)):
        return _pairs(c, nm, b, e, c.lv(2))
    if c.n() > 2 and c.kind(2) == "c" and isinstance(b, T) and b.op == "it":
        base = loc_of(b.args[0])
        pred = invoke_callable(I, st, c.lv(2), [ptr(base + ("[]", i)), ptr(base + ("[]", j))], ["ptr", "ptr"], c.e, "b")
    k = I.kind(c.e["t"])
    r = mkT(c.name, b, e, pred if pred is not None else NULL)
    return atom_nz(r) if k == "b" else r


# --------------------------------------------------------------------- streams
def is_stream(cls):
    return cls.startswith("std::basic_") and cls.endswith(("stream", "buf", "ios")) or cls in ("std::ios_base",)


def out_op(c, p, v, node):
    I = c.I
    if node.get("t", "").replace("const ", "").strip() == "char" and isinstance(v, T) and is_num(v) and 0 < v.args[0] < 128:
        v = string(chr(int(v.args[0])))
    ev = I.emit("out", "<<", c.st, c.e, [v], p)
    ev.res = I.kind(node.get("t", "?"))
    return p


def in_op(c, p, q, kind):
    I, st = c.I, c.st
    uid = c.uid()
    x = mkT("read", uid, isint=kind in "iue")
    ok = atom_nz(mkT("readok", uid))
    if uid in I.poison:
        I.nan_seen += 1
        x = NAN
    I.emit("in", ">>", st, c.e, [q], p).uid = uid
    I.storep(st, q, dd_ite(ok, x, I.loadp(st, q, kind) if kind != "f" and kind not in "iu" else ZERO), kind)

    def go(s, o):
        loc = loc_of(o)
        I.store(s, loc + ("$ok",), dd_and(I.load(s, loc + ("$ok",), "b"), ok), "b")
        I.store(s, loc + ("$eof",), atom_nz(mkT("ateof", uid)), "b")
        I.store(s, loc + ("$bad",), FALSE, "b")
    I.split(st, p, go)
    return p


def stream_method(c, cls, m):
    I, st = c.I, c.st
    if m == "operator<<":
        if c.n() == 1:
            v = c.any(0)
            return out_op(c, c.obj, v, c.args[0])
    if m == "operator>>":
        return in_op(c, c.obj, c.lv(0), c.kind(0))
    if m in ("operator bool", "good"):
        return dd_apply(lambda p: I.load(st, loc_of(p) + ("$ok",), "b"), c.obj)
    if m == "bad":
        return dd_apply(lambda p: I.load(st, loc_of(p) + ("$bad",), "b"), c.obj)
    if m in ("operator!", "fail"):
        return dd_not(dd_apply(lambda p: I.load(st, loc_of(p) + ("$ok",), "b"), c.obj))
    if m == "is_open":
        return dd_apply(lambda p: I.load(st, loc_of(p) + ("$open",), "b"), c.obj)
    if m == "open":
        vs = [c.val(i) for i in range(c.n()) if c.args[i]["k"] != "defarg"]
        I.emit("call", c.name, st, c.e, vs, c.obj)

        def go(s, p):
            ok = mkT("opened", vs[0], I.key("uid", id(c.e), I.fr().key))
            I.store(s, loc_of(p) + ("$ok",), atom_nz(ok), "b")
            I.store(s, loc_of(p) + ("$open",), atom_nz(ok), "b")
            I.store(s, loc_of(p) + ("$src",), vs[0], "s")
        I.split(st, c.obj, go)
        return None
    if m in ("close", "flush"):
        uid = c.uid()
        ev = I.emit("call", c.name, st, c.e, [], c.obj)
        ev.uid = uid

        def go(s, p):
            old = I.load(s, loc_of(p) + ("$ok",), "b")
            I.store(s, loc_of(p) + ("$ok",), dd_and(old, atom_nz(mkT("flushed", uid))), "b")
        I.split(st, c.obj, go)
        return c.obj if m == "flush" else None
    if m == "str" and c.n() == 0:
        return mkT("oss.str", c.uid()) if c.e.get("gl") is False else NotImplemented
    if m == "eof":
        return dd_apply(lambda p: I.load(st, loc_of(p) + ("$eof",), "b"), c.obj)
    return NotImplemented


@model("std::getline")
def m_getline(c):
    I, st = c.I, c.st
    p = c.lv(0)
    q = c.lv(1)
    sep = [c.val(i) for i in range(2, c.n())]
    uid = c.uid()
    I.emit("in", "getline", st, c.e, [q] + sep, p).uid = uid
    ok = atom_nz(mkT("readok", uid))
    bad = atom_nz(mkT("iobad", uid))
    I.storep(st, q, mkT("line", uid), "s")

    def go(s, o):
        # a failed read is either the end of the stream or an input error
        loc = loc_of(o)
        I.store(s, loc + ("$ok",), ok, "b")
        I.store(s, loc + ("$bad",), dd_and(dd_not(ok), bad), "b")
        I.store(s, loc + ("$eof",), dd_ite(ok, atom_nz(mkT("ateof", uid)), dd_not(bad)), "b")
    I.split(st, p, go)
    return p


@model("sscanf", "std::sscanf", "__isoc99_sscanf")
def m_sscanf(c):
    I, st = c.I, c.st
    src, fmt = c.val(0), c.val(1)
    uid = c.uid()
    r = mkT("scanned", uid, isint=True)
    outs = []
    for i in range(2, c.n()):
        pv = c.val(i)
        t = I.deref_t(c.args[i].get("t", "?"))
        k = I.kind(t)
        outs.append((pv, k))
    ev = I.emit("call", "sscanf", st, c.e, [src, fmt] + [p for p, _ in outs])
    ev.res = r
    ev.uid = uid
    for i, (pv, k) in enumerate(outs):
        x = mkT("scan", uid, i, isint=k in "iu", nn=k == "u")
        if (uid, i) in I.poison:
            I.nan_seen += 1
            x = NAN
        got = dd_not(t_lt(r, num(i + 1)))
        old = I.loadp(st, pv, k)
        I.storep(st, pv, dd_ite(got, x, old), k)
    return r


# ------------------------------------------------------------------ absl bits
@model("absl::GetFlag")
def m_getflag(c):
    a = c.args[0]
    n = a.get("n", "?")
    if n.startswith("FLAGS_"):
        n = n[6:]
    k = c.I.kind(c.e["t"])
    t = mkT("flag", n, isint=k in "iu", nn=k == "u")
    if k == "b":
        return atom_nz(t)
    return t


@model("absl::FromUnixSeconds", "absl::Seconds", "absl::ToDoubleSeconds")
def m_ident(c):
    return c.val(0)


@model("absl::ToUnixSeconds", "absl::ToInt64Seconds")
def m_tounix(c):
    return dd_apply(t_trunc, c.val(0))


@model("absl::Now")
def m_now(c):
    c.I.emit("now", c.name, c.st, c.e)
    return mkT("now", c.uid())


def _pieces(fmt, args):
    out = []
    i = 0
    ai = 0
    for m in re.finditer(r"%(?:%|[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|L|q|j|z|t)?[a-zA-Z])", fmt):
        if m.start() > i:
            out.append(string(fmt[i:m.start()]))
        s = m.group(0)
        if s == "%%":
            out.append(string("%"))
        else:
            spec = re.sub(r"hh|h|ll|l|q|j|z|t", "", s)
            ex = []
            for _ in range(spec.count("*")):
                if ai < len(args):
                    ex.append(args[ai])
                    ai += 1
            a = args[ai] if ai < len(args) else mkT("missing")
            ai += 1
            if spec in ("%s", "%d", "%v", "%u", "%i") and not ex:
                out.append(a)
            else:
                out.append(mkT("fmt", spec, a, *ex))
        i = m.end()
    if i < len(fmt):
        out.append(string(fmt[i:]))
    return t_cat(*out)


@model("absl::StrFormat")
def m_strformat(c):
    vs = [c.any(i) for i in range(c.n())]
    return dd_apply(lambda f, *a: _pieces(f.args[0], a) if f.op == "str" else mkT("strformat", f, *a), *vs)


@model("absl::StrCat")
def m_strcat(c):
    vs = [c.any(i) for i in range(c.n())]
    return dd_apply(lambda *a: t_cat(*a), *vs) if vs else string("")


@model("absl::StrAppend")
def m_strappend(c):
    p = c.val(0)
    vs = [c.any(i) for i in range(1, c.n())]
    old = c.I.loadp(c.st, p, "s")
    c.I.storep(c.st, p, dd_apply(lambda *a: t_cat(*a), old, *vs), "s")
    return None


@model("absl::StrAppendFormat")
def m_strappendformat(c):
    p = c.val(0)
    vs = [c.any(i) for i in range(1, c.n())]
    old = c.I.loadp(c.st, p, "s")
    new = dd_apply(lambda f, *a: _pieces(f.args[0], a) if f.op == "str" else mkT("strformat", f, *a), *vs)
    c.I.storep(c.st, p, dd_apply(t_cat, old, new), "s")
    return p


@model("absl::PrintF", "absl::FPrintF", "printf", "fprintf")
def m_printf(c):
    vs = [c.any(i) for i in range(c.n())]
    c.I.emit("print", c.name, c.st, c.e, vs)
    return ZERO


@model("std::to_string")
def m_to_string(c):
    return dd_apply(lambda t: mkT("to_string", t), c.val(0))


@model("absl::ParseTime")
def m_parsetime(c):
    I, st = c.I, c.st
    vs = []
    for i in range(c.n()):
        vs.append(c.any(i))
    uid = c.uid()
    # last two: Time* out, std::string* err
    ev = I.emit("call", c.name, st, c.e, vs)
    ev.uid = uid
    scal = [v for i, v in enumerate(vs[:-2])]
    ok = dd_apply(lambda *a: atom_nz(mkT("parsetime_ok", *a)), *scal)
    out = dd_apply(lambda *a: mkT("parsetime", *a), *scal)
    I.storep(st, vs[-2], dd_ite(ok, out, I.loadp(st, vs[-2], "f")), "f")
    e = vs[-1]
    I.split(st, e, lambda s, p: None if p.op == "null" else I.store(s, loc_of(p), mkT("parsetime_err", uid), "s"))
    return ok


@model("std::async")
def m_async(c):
    I, st = c.I, c.st
    i0 = 0
    if I.kind(c.args[0].get("t", "?")) in ("e", "i"):
        pol = c.val(0)
        i0 = 1
    fp = c.lv(i0) if c.kind(i0) == "c" else c.val(i0)
    extra = [c.any(i) for i in range(i0 + 1, c.n())]
    I.emit("async", c.name, st, c.e, [fp])
    dst = c.dst if c.dst is not None else I.tmp(c.e)
    I.set_agg(st, dst, ("zero",))
    t = split_targs(c.e["t"])
    k = I.kind(t[0]) if t else "c"
    kinds = ["ptr" if I.kind(c.args[i].get("t", "?")) == "c" else "val" for i in range(i0 + 1, c.n())]
    v = I.call_closure_at(st, fp, extra, dst + ("$v",), c.e)
    if v is not None and k != "c":
        I.store(st, dst + ("$v",), v, k)
    return None


# -------------------------------------------------------------------- protobuf
def pkind(f, I=None):
    t = f["type"]
    if t in ("float", "double"):
        return "f"
    if t in ("int32", "int64", "sint32", "sint64", "sfixed32", "sfixed64"):
        return "i"
    if t in ("uint32", "uint64", "fixed32", "fixed64"):
        return "u"
    if t == "bool":
        return "b"
    if t in ("string", "bytes"):
        return "s"
    return None


def proto_method(c, msg, m):
    I, st, e = c.I, c.st, c.e
    fields = msg["fields"]

    def fkind(f):
        k = pkind(fields[f])
        if k:
            return k
        # enum or message: look at the declared type through the callee signature
        t = fields[f]["type"]
        for p in I.P.protos.values():
            for n in p["enums"]:
                if n == t or n.endswith("." + t):
                    return "e"
        return "c"

    def each(fn):
        return dd_apply(lambda p: fn(loc_of(p)), c.obj)

    def eff(fn):
        I.split(st, c.obj, lambda s, p: fn(s, loc_of(p)))

    def sethas(s, loc, f):
        o = fields[f]["oneof"]
        if o:
            I.store(s, loc + ("case:" + o,), num(fields[f]["no"]), "e")
        else:
            I.store(s, loc + ("has:" + f,), TRUE, "b")

    # field accessors
    if m in fields:
        f = fields[m]
        k = fkind(m)
        if f["label"] == "repeated":
            if c.n() == 1:
                i = c.val(0)
                acc = dd_apply(lambda p, x: ptr(loc_of(p) + (m, "[]", x)), c.obj, i)
                for p in leaves(c.obj):
                    n = I.load(st, loc_of(p) + (m, "$n"), "u")
                    access(c, "index out of range", loc_of(p) + (m,),
                           dd_apply(lambda x, y: dd_and(dd_not(t_lt(x, ZERO)), t_lt(x, y)), i, n))
                if e.get("gl"):
                    return acc
                return I.loadp(st, acc, k)
            return dd_apply(lambda p: ptr(loc_of(p) + (m,)), c.obj)
        if k == "c":
            return dd_apply(lambda p: ptr(loc_of(p) + (m,)), c.obj)
        v = each(lambda loc: I.load(st, loc + (m,), k))
        if e.get("gl"):
            return dd_apply(lambda p: ptr(loc_of(p) + (m,)), c.obj)
        return v
    if m.startswith("set_") and m[4:] in fields:
        f = m[4:]
        k = fkind(f)
        if fields[f]["label"] == "repeated":
            i, v = c.val(0), c.val(1)
            I.storep(st, dd_apply(lambda p, x: ptr(loc_of(p) + (f, "[]", x)), c.obj, i), v, k)
            return None
        v = c.val(0)
        if k == "b":
            v = I.to_bool(v)

        def go(s, loc):
            I.store(s, loc + (f,), v, k)
            sethas(s, loc, f)
        eff(go)
        return None
    if m.startswith("has_") and m[4:] in fields:
        f = m[4:]
        o = fields[f]["oneof"]
        if o:
            return each(lambda loc: dd_apply(lambda t: t_eq(t, num(fields[f]["no"])),
                                             I.load(st, loc + ("case:" + o,), "e")))
        return each(lambda loc: I.load(st, loc + ("has:" + f,), "b"))
    if m.endswith("_case") and m[:-5] in msg["oneofs"]:
        o = m[:-5]
        return each(lambda loc: I.load(st, loc + ("case:" + o,), "e"))
    if m.startswith("clear_") and m[6:] in fields:
        f = m[6:]
        k = fkind(f)

        def go(s, loc):
            if fields[f]["label"] == "repeated":
                I.store(s, loc + (f, "$n"), ZERO, "u")
            elif k == "c":
                I.set_agg(s, loc + (f,), ("zero",))
                I.store(s, loc + ("has:" + f,), FALSE, "b")
            else:
                I.store(s, loc + (f,), string("") if k == "s" else ZERO, k)
                if fields[f]["oneof"]:
                    I.store(s, loc + ("case:" + fields[f]["oneof"],), ZERO, "e")
                else:
                    I.store(s, loc + ("has:" + f,), FALSE, "b")
        eff(go)
        return None
    if m.startswith("mutable_") and m[8:] in fields:
        f = m[8:]
        if fields[f]["label"] == "repeated":
            if c.n() == 1:
                i = c.val(0)
                return dd_apply(lambda p, x: ptr(loc_of(p) + (f, "[]", x)), c.obj, i)
            return dd_apply(lambda p: ptr(loc_of(p) + (f,)), c.obj)
        eff(lambda s, loc: sethas(s, loc, f))
        return dd_apply(lambda p: ptr(loc_of(p) + (f,)), c.obj)
    if m.startswith("add_") and m[4:] in fields:
        f = m[4:]
        k = fkind(f)
        if isinstance(c.obj, N):
            return NotImplemented
        loc = loc_of(c.obj) + (f,)
        v = c.val(0) if c.n() else None
        n = I.load(st, loc + ("$n",), "u")

        def put(s, i):
            if k == "c":
                I.set_agg(s, loc + ("[]", i), ("zero",))
            else:
                I.store(s, loc + ("[]", i), v, k)
        _split_store(I, st, n, put)
        I.store(st, loc + ("$n",), dd_apply(t_add, n, ONE), "u")
        return dd_apply(lambda i: ptr(loc + ("[]", i)), n)
    if m.endswith("_size") and m[:-5] in fields:
        f = m[:-5]
        return each(lambda loc: I.load(st, loc + (f, "$n"), "u"))
    if m in ("CopyFrom", "operator=", "MergeFrom", "Swap"):
        if m in ("MergeFrom", "Swap"):
            return NotImplemented
        p = c.lv(0)
        I.assign(st, c.obj, p)
        return c.obj
    if m == "Clear":
        eff(lambda s, loc: I.set_agg(s, loc, ("zero",)))
        return None
    if m in ("DebugString", "ShortDebugString", "SerializeAsString"):
        return dd_apply(lambda p: mkT("text", m, p, c.uid()), c.obj)
    if m.endswith("_Name"):
        return dd_apply(lambda t: mkT("enumname", m, t), c.val(0))
    if m == "default_instance":
        return ptr((("G", "default_instance", c.fn["cls"], "default"),))
    return NotImplemented


@model("google::protobuf::Message::DebugString", "google::protobuf::Message::ShortDebugString")
def m_debugstring(c):
    return dd_apply(lambda p: mkT("text", "DebugString", p, c.uid()), c.obj)
