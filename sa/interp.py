"""Gated value-flow construction over the resolved AST.

One forward pass per function, callees inlined; at every control-flow merge the
values of the incoming branches are gated by the branch condition (decision
diagram), loops are analysed as one generic iteration from a havocked head
state (mu terms; constant-step counters become  init + step*kappa).
The result of a pass is: the returned value, the final memory, and the tree of
observable events (calls that leave the repository, virtual calls, output),
each with its guard.
"""
import re
import struct
import sys
from fractions import Fraction

from .core import *
from .program import strip_tpl, F

sys.setrecursionlimit(20000)

NULL = mkT("null")
MASK = {}


class Unsupported(Exception):
    pass


def ptr(loc):
    return mkT("ptr", loc)


def it(cptr, idx):
    return mkT("it", cptr, idx)


def decimal_of(v):
    """The shortest decimal that denotes a floating literal: 0.1f and 0.1 are both one tenth."""
    x = float(v)
    if x == 0 or not 1e-30 < abs(x) < 1e30:
        return Fraction(v)
    if struct.unpack("f", struct.pack("f", x))[0] == x:
        for k in range(1, 10):
            s = "%.*g" % (k, x)
            if struct.unpack("f", struct.pack("f", float(s)))[0] == x:
                return Fraction(s)
    return Fraction(repr(x))


def loc_of(p):
    if p.op == "ptr":
        return p.args[0]
    if p.op == "it":
        return loc_of(p.args[0]) + ("[]", p.args[1])
    if p.op == "null":
        return (("NULL",),)
    return (("D", p),)


class St:
    __slots__ = ("pc", "mem", "aggs", "idx")

    def __init__(self, pc=TRUE):
        self.pc = pc
        self.mem = {}
        self.aggs = {}
        self.idx = {}

    def clone(self):
        s = St(self.pc)
        s.mem = dict(self.mem)
        s.aggs = dict(self.aggs)
        s.idx = dict(self.idx)
        return s

    def take(self, o):
        self.pc, self.mem, self.aggs, self.idx = o.pc, o.mem, o.aggs, o.idx

    @property
    def dead(self):
        return self.pc is FALSE


class Ev:
    """An observable event."""
    __slots__ = ("kind", "name", "pc", "args", "st", "line", "file", "fn", "node", "res", "obj", "uid")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        return "<ev %s %s @%s:%s>" % (self.kind, self.name, self.file, self.line)

    @property
    def where(self):
        return "%s:%s" % (self.file, self.line)


class Loop:
    __slots__ = ("lid", "kappa", "pc", "cond", "mods", "back", "head", "ev", "line", "file", "exits", "entry", "kind",
                 "induct", "fn", "breaks", "after", "returns")

    def __repr__(self):
        return "<loop L%s @%s:%s>" % (self.lid, self.file, self.line)

    @property
    def where(self):
        return "%s:%s" % (self.file, self.line)


class Frame:
    __slots__ = ("f", "key", "this", "rets", "tu", "retloc", "caps", "brk", "cont", "retkind", "glret", "parent",
                 "closure", "refret")


SCALAR_CLS = {
    "std::basic_string": "s", "std::basic_string_view": "s", "absl::string_view": "s",
    "std::unique_ptr": "p", "std::shared_ptr": "p", "__gnu_cxx::__normal_iterator": "p",
    "std::_Deque_iterator": "p", "std::_Rb_tree_iterator": "p", "std::_Rb_tree_const_iterator": "p",
    "std::reverse_iterator": "p", "std::_List_iterator": "p", "std::_List_const_iterator": "p",
    "std::_Bit_iterator": "p", "std::_Bit_const_iterator": "p", "std::__detail::_Node_iterator": "p",
    "google::protobuf::internal::RepeatedPtrIterator": "p", "google::protobuf::internal::RepeatedIterator": "p",
    "std::back_insert_iterator": "p", "std::reference_wrapper": "p",
    "absl::Time": "f", "absl::Duration": "f", "absl::Status": "x", "absl::TimeZone": "x",
    "absl::time_internal::cctz::detail::civil_time": "x",
    "std::initializer_list": "p", "std::nullopt_t": "x", "absl::AlphaNum": "s",
    "absl::str_format_internal::FormatSpecTemplate": "s", "std::shared_future": "c", "absl::optional": "c",
    "std::allocator": "x", "std::chrono::duration": "f", "std::chrono::time_point": "f",
    "std::basic_string::const_iterator": "p", "std::less": "x", "std::greater": "x",
}

PURE_MATH = {"floor", "ceil", "round", "sqrt", "exp", "log", "pow", "abs", "fabs", "fmin", "fmax", "log2", "log10",
             "trunc", "lround", "llround", "isnan", "isfinite", "isinf", "sin", "cos", "tan", "fmod", "hypot", "cbrt",
             "log1p", "expm1", "nearbyint", "rint", "copysign", "signbit", "floorf", "ceilf", "roundf", "sqrtf",
             "expf", "logf", "powf", "fabsf", "labs", "llabs"}


class Interp:
    def __init__(self, P, opaque=(), devirt=True, max_depth=60):
        self.P = P
        self.opaque = set(opaque)
        self.kinds = {}
        self.wlogs = []
        self.dlogs = []
        self.ev = []
        self.frames = []
        self.keys = {}
        self.loops = {}
        self.lids = {}
        self.active, self.inner, self.synth = [], {}, {}
        self.unsupported = []
        self.assumed = []
        self.visited = set()
        self.calls_seen = 0
        self.max_depth = max_depth
        self.dry = 0
        self.steps = 0
        self.step_limit = 4_000_000
        self._tk = {}
        self.protomsgs = self._protomsgs()
        self.opaque_hook = None
        self.stand_in = {}    # function -> what happens in its place
        self.nan_seen = 0
        self.poison = frozenset()       # parsed values assumed to be NaN in this pass
        self.linekeys = {}
        from . import models
        self.models = models

    # ------------------------------------------------------------ type info
    def _protomsgs(self):
        out = {}
        for f, p in self.P.protos.items():
            pk = p["package"].replace(".", "::")
            for n, m in p["messages"].items():
                c = (pk + "::" if pk else "") + n.replace(".", "_")
                if f.endswith("example.proto"):
                    out.setdefault(c, m)
                else:
                    out[c] = m
        return out

    def tinfo(self, t):
        return self.P.types.get(t) or {"k": "?"}

    def kind(self, t):
        """scalar kind of a type or 'c' (class), 'v', 'a', 'r' (reference)"""
        r = self._tk.get(t)
        if r is not None:
            return r
        i = self.tinfo(t)
        k = i["k"]
        if k == "c":
            cls = strip_tpl(i.get("cls", t))
            if cls.startswith("const "):
                cls = cls[6:]
            k = SCALAR_CLS.get(cls, "c")
            if cls.startswith("std::_") and cls.endswith("iterator"):
                k = "p"
        elif k == "F":
            k = "p"
        elif k == "m":
            k = "x"
        elif k == "n":
            k = "p"
        elif k == "R":
            k = "r"
        self._tk[t] = k
        return k

    def cls(self, t):
        i = self.tinfo(t)
        c = i.get("cls", t)
        return c[6:] if c.startswith("const ") else c

    def deref_t(self, t):
        i = self.tinfo(t)
        return i.get("to", t)

    # --------------------------------------------------------------- memory
    def sym_leaf(self, base, path, kind):
        path = tuple(path)
        last = path[-1] if path else None
        if self.poison and base.op == "out" and last in self.poison:
            self.nan_seen += 1
            return NAN
        t = mkT("ld", base, path, isint=kind in ("i", "u", "e") or last == "$n" or last == "$h",
                nn=(kind == "u" or last == "$n"), enum=(kind == "e"))
        if kind == "b":
            return atom_nz(t)
        return t

    def root_src(self, root):
        return ("sym", mkT("obj", root), ())

    def sub(self, src, suffix):
        """Aggregate source of a sub-object."""
        if not suffix:
            return src
        k = src[0]
        if k == "sym":
            return ("sym", src[1], src[2] + tuple(suffix))
        if k == "zero":
            return src
        if k == "ite":
            return ("ite", src[1], self.sub(src[2], suffix), self.sub(src[3], suffix))
        if k == "shift":
            i = suffix[0]
            return self.sub(src[1], (t_add(i, src[2]),) + tuple(suffix[1:]))
        if k == "fill":
            return self.sub(src[1], suffix[1:])
        if k == "val":
            return src
        raise Unsupported("agg " + k)

    def load_src(self, src, suffix, kind):
        k = src[0]
        if k == "sym":
            base, path = src[1], src[2] + tuple(suffix)
            if path and path[-1] == "$h" and base.op == "obj":
                return ZERO
            return self.sym_leaf(base, path, kind)
        if k == "zero":
            if kind == "s":
                return string("")
            if kind == "p":
                return NULL
            return ZERO
        if k == "ite":
            return dd_ite(src[1], self.load_src(src[2], suffix, kind), self.load_src(src[3], suffix, kind))
        if k in ("shift", "fill"):
            return self.load_src(self.sub(src, suffix), (), kind)
        if k == "val":
            return src[1]
        raise Unsupported("agg " + k)

    def cover(self, st, loc):
        """Aggregate source covering loc (nearest prefix)."""
        for n in range(len(loc), 0, -1):
            s = st.aggs.get(loc[:n])
            if s is not None:
                return self.sub(s, loc[n:])
        return self.sub(self.root_src(loc[0]), loc[1:])

    def _distinct(self, i, j):
        p = t_sub(i, j)
        if p.op == "num":
            return p.args[0] != 0
        d = dict(p.args) if p.op == "poly" else {((p, 1),): 1}
        c = d.pop((), 0)
        if p.op != "poly":
            return False
        if c > 0 and all(v > 0 and all(a.nn for a, e in m) for m, v in d.items()):
            return True
        if c < 0 and all(v < 0 and all(a.nn for a, e in m) for m, v in d.items()):
            return True
        return False

    def load(self, st, loc, kind, _skip=None):
        v = st.mem.get(loc)
        if v is None:
            v = self.cover(st, loc)
            v = self.load_src(v, (), kind)
        # possibly aliasing element stores, newest first
        if st.idx:
            for p in range(1, len(loc)):
                if loc[p] == "[]" and p + 1 < len(loc):
                    cp = loc[:p + 1]
                    js = st.idx.get(cp)
                    if js:
                        v = self._alias(st, loc, p + 1, js, v, kind)
        if isinstance(v, (T, N)):
            if kind == "b":
                v = self.to_bool(v)
        return v

    def _alias(self, st, loc, p, js, v, kind):
        i = loc[p]
        cp = loc[:p]
        suf = loc[p + 1:]
        pend = []
        for j in reversed(js):
            if j is i:
                break
            if self._distinct(i, j):
                continue
            jl = cp + (j,) + suf
            has = jl in st.mem or any((cp + (j,) + suf[:n]) in st.aggs for n in range(len(suf) + 1))
            if not has:
                continue
            c = t_eq(i, j)
            if c is FALSE:
                continue
            w = st.mem.get(jl)
            if w is None:
                w = self.load_src(self.cover(st, jl), (), kind)
            pend.append((c, w))
        for c, w in reversed(pend):
            v = dd_ite(c, w, v)
        return v

    def _settle(self, st, loc):
        """Before a part of element i is stored: fold newer, possibly aliasing stores of other elements into i."""
        for p in range(1, len(loc) - 2):
            if loc[p] != "[]" or not isinstance(loc[p + 1], T):
                continue
            cp, i = loc[:p + 1], loc[p + 1]
            js = st.idx.get(cp, ())
            if not js or js[-1] is i:
                continue
            new = js[js.index(i) + 1:] if i in js else js
            self._settle_elem(st, cp, i, new)

    def _settle_elem(self, st, cp, i, new):
        """Fold the stores of elements `new` (oldest first) of container cp that may alias element i into i."""
        new = [(j, c) for j, c in ((j, t_eq(i, j)) for j in new if j is not i and not self._distinct(i, j)) if c is not FALSE]
        if not new:
            return
        il = cp + (i,)
        keys, aggs = {}, {}
        for j, c in new:
            m, a, x = self.entries(st, cp + (j,))
            for k, v in m:
                keys.setdefault(k, self.kinds.get(cp + (j,) + k) or self.kinds.get(il + k) or "?")
            if cp + (j,) in st.mem:
                keys.setdefault((), self.kinds.get(cp + (j,)) or self.kinds.get(il) or "?")
            if cp + (j,) in st.aggs:
                a = [((), st.aggs[cp + (j,)])] + a
            for k, s in a:
                old = aggs[k] if k in aggs else self.cover(st, il + k)
                aggs[k] = ("ite", c, s, old)
        if not keys and not aggs:
            return
        for k, v in self.entries(st, il)[0]:
            keys.setdefault(k, self.kinds.get(il + k) or "?")
        vals = {k: self.load(st, il + k, kd) for k, kd in keys.items() if not any(y == "[]" for y in k)}
        for k, s in aggs.items():
            st.aggs[il + k] = s
        for k, v in vals.items():
            st.mem[il + k] = v
            if il + k not in self.kinds:
                self.kinds[il + k] = keys[k]

    def touch(self, st, loc):
        for p in range(1, len(loc) - 1):
            if loc[p] == "[]":
                cp = loc[:p + 1]
                i = loc[p + 1]
                if not isinstance(i, T):
                    continue
                js = st.idx.get(cp, ())
                if not js or js[-1] is not i:
                    st.idx[cp] = tuple(j for j in js if j is not i) + (i,)

    def log(self, entry):
        if self.wlogs:
            self.wlogs[-1].add(entry)

    def store(self, st, loc, val, kind=None):
        if kind is not None:
            self.kinds[loc] = kind
        if isinstance(val, tuple):
            raise Unsupported("tuple value")
        # element store in a place that may alias an existing one: materialise
        if st.idx:
            self._settle(st, loc)
        st.mem[loc] = val
        self.touch(st, loc)
        self.log((loc, "v"))

    def clear(self, st, loc):
        n = len(loc)
        for d in (st.mem, st.aggs, st.idx):
            ks = [k for k in d if k[0] == loc[0] and len(k) >= n and k[:n] == loc]
            for k in ks:
                del d[k]

    def set_agg(self, st, loc, src):
        self.clear(st, loc)
        st.aggs[loc] = src
        self.touch(st, loc + ("",))
        self.log((loc, "a"))

    def entries(self, st, loc):
        n = len(loc)
        m = [(k[n:], v) for k, v in st.mem.items() if k[0] == loc[0] and len(k) > n and k[:n] == loc]
        a = [(k[n:], v) for k, v in st.aggs.items() if k[0] == loc[0] and len(k) > n and k[:n] == loc]
        x = [(k[n:], v) for k, v in st.idx.items() if k[0] == loc[0] and len(k) > n and k[:n] == loc]
        return m, a, x

    def copy_obj(self, st, src, dst):
        if src == dst:
            return
        m, a, x = self.entries(st, src)
        c = self.cover(st, src)
        # an element read whose container has possibly aliasing newer stores
        for p in range(1, len(src)):
            if src[p] == "[]" and p + 1 < len(src):
                cp = src[:p + 1]
                for j in st.idx.get(cp, ()):
                    i = src[p + 1]
                    if j is i or self._distinct(i, j):
                        continue
                    e = t_eq(i, j)
                    if e is FALSE:
                        continue
                    jl = cp + (j,) + src[p + 2:]
                    m2, a2, x2 = self.entries(st, jl)
                    if not m2 and not any((cp + (j,) + src[p + 2:][:n]) in st.aggs for n in range(len(src[p + 2:]) + 1)):
                        continue
                    c2 = self.cover(st, jl)
                    keys = dict(m)
                    d2 = dict(m2)
                    nm = []
                    for k in list(keys) + [k for k in d2 if k not in keys]:
                        kd = self.kinds.get(jl + k) or self.kinds.get(src + k) or "?"
                        va = keys[k] if k in keys else self.load_src(self.sub(c, k), (), kd)
                        vb = d2[k] if k in d2 else self.load_src(self.sub(c2, k), (), kd)
                        self.kinds.setdefault(src + k, kd)
                        nm.append((k, dd_ite(e, vb, va)))
                    m = nm
                    c = ("ite", e, c2, c) if c != c2 else c
        kinds = self.kinds
        self.set_agg(st, dst, c)
        for k, v in m:
            st.mem[dst + k] = v
            kd = kinds.get(src + k)
            if kd:
                kinds[dst + k] = kd
        for k, v in a:
            st.aggs[dst + k] = v
        for k, v in x:
            st.idx[dst + k] = v

    def join(self, st, c, a, b):
        """st := c ? a : b   (a and b states)."""
        if a.pc is FALSE:
            st.take(b)
            return
        if b.pc is FALSE:
            st.take(a)
            return
        pc = dd_or(a.pc, b.pc)
        sel = dd_restrict(a.pc, pc) if c is None else c
        self._align(a, b)
        out = St(pc)
        out.aggs = dict(a.aggs)
        changed = []
        for k in set(a.aggs) | set(b.aggs):
            x, y = a.aggs.get(k), b.aggs.get(k)
            if x is y or x == y:
                continue
            if x is None:
                if self._fresh(k[0], a):
                    out.aggs[k] = y
                    continue
                x = self.cover(a, k)
            if y is None:
                if self._fresh(k[0], b):
                    out.aggs[k] = x
                    continue
                y = self.cover(b, k)
            if x == y:
                out.aggs[k] = x
            else:
                out.aggs[k] = ("ite", sel, x, y)
            changed.append(k)
        mem = dict(a.mem)
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y:
                continue
            kd = self.kinds.get(k, "?")
            if x is None:
                if self._fresh(k[0], a):
                    mem[k] = y
                    continue
                x = self._ld1(a, k, kd)
            if y is None:
                if self._fresh(k[0], b):
                    mem[k] = x
                    continue
                y = self._ld1(b, k, kd)
            mem[k] = x if x is y else dd_ite(sel, x, y)
        out.mem = mem
        out.idx = dict(a.idx)
        for k, js in b.idx.items():
            o = out.idx.get(k)
            if o is None:
                out.idx[k] = js
            elif o != js:
                out.idx[k] = o + tuple(j for j in js if not any(j is q for q in o))
        st.take(out)

    def _align(self, a, b):
        """Give both states the same age order of element stores, folding aliases where the order changes."""
        for cp in set(a.idx) | set(b.idx):
            x, y = a.idx.get(cp, ()), b.idx.get(cp, ())
            if x == y or len(set(x) | set(y)) < 2:
                continue
            o = x + tuple(j for j in y if not any(j is q for q in x))
            for st, own in ((a, x), (b, y)):
                if own == o:
                    continue
                if not own:
                    st.idx[cp] = o
                    continue
                pos = {id(j): n for n, j in enumerate(own)}
                for n, i in enumerate(o):
                    before = {id(j) for j in o[:n]}
                    mine = pos.get(id(i), -1)
                    if any(id(j) in before and pos[id(j)] > mine for j in own):
                        newer = own[mine + 1:]
                        self._settle_elem(st, cp, i, newer)
                        own = tuple(j for j in own if j is not i) + (i,)
                        pos = {id(j): m for m, j in enumerate(own)}
                        st.idx[cp] = own
                st.idx[cp] = o

    def _ld1(self, st, k, kd):
        v = st.mem.get(k)
        if v is not None:
            return v
        if st.idx and "[]" in k:
            return self.load(st, k, kd)
        return self.load_src(self.cover(st, k), (), kd)

    def _fresh(self, root, st):
        """A local/temporary root of which st knows nothing (declared on the other branch only)."""
        if root[0] not in ("v", "t", "h", "ret"):
            return False
        for k in st.mem:
            if k[0] == root:
                return False
        for k in st.aggs:
            if k[0] == root:
                return False
        return True

    # -------------------------------------------------------------- helpers
    unroll = 0      # loops whose condition is a constant at every turn are executed turn by turn, up to this many
    salt = ()

    def key(self, *k):
        if self.salt:
            k = k + (self.salt,)
        r = self.keys.get(k)
        if r is None:
            r = len(self.keys) + 1
            self.keys[k] = r
        return r

    def fr(self):
        return self.frames[-1]

    def tmp(self, node, what="t"):
        n = self.key("tmp", id(node), what, self.fr().key)
        root = ("t", n)
        self.declare(root)
        return (root,)

    def declare(self, root):
        if self.dlogs:
            self.dlogs[-1].add(root)

    def branch(self, st, c, fa, fb):
        """Run fa / fb on the two sides of condition c, merge; values are gated."""
        c0 = c
        c = dd_restrict(c, st.pc) if isinstance(st.pc, N) else c
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        a = st.clone()
        a.pc = dd_and(st.pc, c)
        b = st.clone()
        b.pc = dd_and(st.pc, dd_not(c))
        va = fa(a) if a.pc is not FALSE else None
        vb = fb(b) if b.pc is not FALSE else None
        full = dd_or(a.pc, b.pc)
        same = full is st.pc
        if a.pc is FALSE:
            st.take(b)
            return vb
        if b.pc is FALSE:
            st.take(a)
            return va
        sel = c if same else dd_restrict(a.pc, full)
        self.join(st, sel, a, b)
        if va is None or vb is None:
            return va if vb is None else vb
        return dd_ite(sel, va, vb)

    def split(self, st, d, fn):
        """Apply an effectful fn(st, leafterm) under each leaf of d."""
        if isinstance(st.pc, N):
            d = dd_restrict(d, st.pc)
        if not isinstance(d, N):
            return fn(st, d)
        ls = sorted(leaves(d), key=lambda t: t.id)

        def rec(st, ls):
            if len(ls) == 1:
                return fn(st, ls[0])
            c = dd_apply(lambda t: TRUE if t is ls[0] else FALSE, d)
            return self.branch(st, c, lambda s: fn(s, ls[0]), lambda s: rec(s, ls[1:]))

        return rec(st, ls)

    def to_bool(self, v):
        return dd_apply(self._tb, v)

    def _tb(self, t):
        if t.op == "num":
            return TRUE if t.args[0] != 0 else FALSE
        if t.op in ("ptr", "lam", "it"):
            return TRUE
        if t.op == "null":
            return FALSE
        if t.op == "str":
            return TRUE
        if t.isint:
            return dd_not(t_eq(t, ZERO))
        return atom_nz(t)

    def unk(self, why, node=None):
        w = "%s @%s" % (why, self.where(node))
        if not self.dry and w not in self.unsupported:
            self.unsupported.append(w)
        return mkT("unk", why, self.key("unk", id(node), self.fr().key if self.frames else 0))

    def where(self, node=None):
        f = self.frames[-1].f if self.frames else None
        return "%s:%s" % (f.d.get("file", "?") if f else "?", (node or {}).get("l", f.d.get("line") if f else 0))

    def emit(self, kind, name, st, node, args=(), obj=None, res=None):
        f = self.fr().f
        e = Ev(kind=kind, name=name, pc=st.pc, args=list(args), st=st.clone(), line=node.get("l", 0) if node else 0,
               file=self.file_of(f), fn=f, node=node, res=res, obj=obj)
        self.ev.append(e)
        return e

    def file_of(self, f):
        return f.d.get("file", "?")

    # ----------------------------------------------------------- entry point
    def run(self, fn, args=None, this=None, st=None, retkind=None):
        """Analyse fn. args: list of DD (pointers for references/classes) or None for symbolic."""
        st = st or St()
        vals = []
        for i, p in enumerate(fn.d["params"]):
            a = None if args is None or i >= len(args) else args[i]
            if a is None:
                k = self.kind(p["t"])
                if k in ("r", "c") or (k == "p" and self.tinfo(p["t"])["k"] == "p"):
                    a = ptr((("P", i, p["n"]),))
                elif k == "b":
                    a = atom_nz(mkT("arg", i))
                else:
                    a = mkT("arg", i, isint=k in "iue", nn=(k == "u"), enum=(k == "e"))
            vals.append(a)
        if this is None and fn.d.get("method") and not fn.d.get("static"):
            this = ptr((("P", "this"),))
        retloc = (("ret", 0),)
        self.const_arrays(st, fn)
        v = self.invoke(st, fn, this, vals, retloc, ("entry", fn.key))
        return st, v, retloc

    def const_arrays(self, st, fn):
        """Constant tables are known from the start (not only from their first use, which may be in a loop)."""
        for tu, v in self.P.vars:
            if v.get("const") and v.get("init") is not None and "[" in v["t"] and not re.match(r"(const )?char ?(const )?\[", v["t"]):
                fr = Frame()
                fr.f, fr.tu, fr.key, fr.closure, fr.caps, fr.this = fn, tu, self.key("fr", ("const", v["n"]), 0), None, None, None
                self.frames.append(fr)
                try:
                    self.init_loc(st, (("G", v["n"], "", v["n"].split("::")[-1]),), v["t"], v["init"])
                except Unsupported:
                    pass
                finally:
                    self.frames.pop()

    # ---------------------------------------------------------------- calls
    def invoke(self, st, f, this, vals, retloc, site, closure=None, caps=None, params_ready=False):
        """Inline the body of f. vals: DD per parameter (pointer DD for reference or class parameters)."""
        d = f.d
        if len(self.frames) > self.max_depth or sum(1 for x in self.frames if x.f.key == f.key) > 2:
            return self.unk("recursion " + f.qn)
        self.visited.add((f.qn, f.where))
        fr = Frame()
        fr.f = f
        fr.tu = f.tu
        fr.key = self.key("fr", site, self.frames[-1].key if self.frames else 0)
        fr.this = this
        fr.rets = []
        fr.retloc = retloc
        fr.retkind = self.kind(d["ret"])
        fr.brk = []
        fr.cont = []
        fr.closure = closure
        fr.caps = None
        self.frames.append(fr)
        try:
            for p, v in zip(d["params"], vals):
                root = ("v", p["d"], fr.key, p["n"])
                self.declare(root)
                k = self.kind(p["t"])
                if k == "c":
                    # by-value class: private copy
                    self.split(st, v, lambda s, q: self.copy_obj(s, loc_of(q), (root,)))
                elif k == "a":
                    self.store(st, (root,), v, "p")
                else:
                    self.store(st, (root,), v, "p" if k == "r" else k)
            for i in d.get("inits", ()):  # constructor initialisers
                self.ctor_init(st, i, this)
            if isinstance(d.get("body"), dict):
                self.stmt(st, d["body"])
            rv = None
            if st.pc is not FALSE:
                fr.rets.append((st.clone(), None))
            rv = self.merge_rets(st, fr)
        finally:
            self.frames.pop()
        self.drop_frame(st, fr.key)
        return rv

    def merge_rets(self, st, fr):
        rets = [r for r in fr.rets if r[0].pc is not FALSE]
        if not rets:
            st.pc = FALSE
            return None
        cur, val = rets[-1]
        for s, v in reversed(rets[:-1]):
            full = dd_or(s.pc, cur.pc)
            sel = dd_restrict(s.pc, full)
            n = St()
            self.join(n, sel, s, cur)
            if v is None:
                val = val
            elif val is None:
                val = v
            else:
                val = dd_ite(sel, v, val)
            cur = n
        st.take(cur)
        return val

    def drop_frame(self, st, key):
        def dead(r):
            return r[0] == "v" and r[2] == key
        for d in (st.mem, st.aggs, st.idx):
            ks = [k for k in d if dead(k[0])]
            for k in ks:
                del d[k]

    def ctor_init(self, st, i, this):
        if i.get("f") is not None:
            def go(s, p):
                loc = loc_of(p) + (i["f"],)
                self.init_loc(s, loc, i.get("ft"), i["e"])
            self.split(st, this, go)
        elif i.get("base") or i.get("deleg"):
            e = i["e"]
            if isinstance(e, dict) and e.get("k") == "ctor":
                self.split(st, this, lambda s, p: self.construct(s, e, loc_of(p)))

    def init_loc(self, st, loc, t, e):
        """Initialise the object at loc of type t from expression e."""
        k = self.kind(t)
        if k == "c":
            self.into(st, e, loc)
        elif k == "r":
            self.store(st, loc, self.lv(st, e), "p")
        elif k == "a":
            self.into(st, e, loc)
        elif k == "v":
            self.rv(st, e)
        else:
            self.store(st, loc, self.rv(st, e), k)

    # ----------------------------------------------------------- statements
    def stmt(self, st, s):
        if s is None or st.pc is FALSE:
            return
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisLimit("step limit")
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            self.unk("statement " + s["k"], s)
            return
        m(st, s)

    def s_block(self, st, s):
        for x in s["ss"]:
            self.stmt(st, x)
            if st.pc is FALSE:
                return

    def s_nop(self, st, s):
        pass

    def s_expr(self, st, s):
        self.effect(st, s["e"])

    def effect(self, st, e):
        """Evaluate for side effects."""
        k = self.kind(e.get("t", "void"))
        if e["k"] == "call" and e.get("gl"):
            self.lv(st, e)
        elif e["k"] in ("cassign",) or (e["k"] == "bin" and e["op"] in ("=",)) or (e["k"] == "un" and e["op"] in ("++", "--")):
            self.rv(st, e)
        elif k == "c" and e["k"] not in ("ref", "mem"):
            self.into(st, e, self.tmp(e))
        elif e["k"] == "cond" and k == "c":
            self.into(st, e, self.tmp(e))
        else:
            self.rv(st, e)

    def s_decl(self, st, s):
        for v in s["vs"]:
            self.decl(st, v)

    def decl(self, st, v):
        fr = self.fr()
        if v.get("static"):
            root = ("G", v["d"], fr.tu, v["n"])
            # a function-local static: value unknown on entry (earlier calls), so symbolic,
            # unless const with initialiser
            if v.get("init") is not None and (self.tinfo(v["t"]).get("const") or "const " in v["t"]):
                self.init_loc(st, (root,), v["t"], v["init"])
            return
        root = ("v", v["d"], fr.key, v["n"])
        self.declare(root)
        loc = (root,)
        self.clear(st, loc)
        if v.get("init") is not None:
            self.init_loc(st, loc, v["t"], v["init"])
        else:
            k = self.kind(v["t"])
            if k in "biufepx" and k != "c":
                st.mem[loc] = mkT("uninit", root) if k != "b" else atom_nz(mkT("uninit", root))
                self.kinds[loc] = k
                self.log((loc, "v"))
            else:
                self.set_agg(st, loc, ("sym", mkT("uninit", root), ()))
        for b in v.get("binds", ()):
            if b.get("hv"):
                self.decl(st, b["hv"])

    def s_if(self, st, s):
        if s.get("init"):
            self.stmt(st, s["init"])
        if s.get("cv"):
            self.decl(st, s["cv"])
        c = self.to_bool(self.rv(st, s["c"]))
        self.branch(st, c, lambda a: self.stmt(a, s["a"]), lambda b: self.stmt(b, s["b"]) if s.get("b") else None)

    def s_return(self, st, s):
        fr = self.fr()
        e = s.get("e")
        v = None
        if e is not None:
            k = fr.retkind
            if k == "c":
                self.into(st, e, fr.retloc)
            elif k == "r":
                v = self.lv(st, e)
            elif k == "v":
                self.effect(st, e)
            else:
                v = self.rv(st, e)
                if k == "b":
                    v = self.to_bool(v)
        if st.pc is FALSE:
            return
        fr.rets.append((st.clone(), v))
        st.pc = FALSE

    def s_break(self, st, s):
        self.fr().brk[-1].append(st.clone())
        st.pc = FALSE

    def s_continue(self, st, s):
        for c in reversed(self.fr().cont):
            if c is not None:
                c.append(st.clone())
                break
        st.pc = FALSE

    def s_throw(self, st, s):
        self.emit("throw", "throw", st, s)
        st.pc = FALSE

    def s_try(self, st, s):
        self.stmt(st, s["s"])

    def s_label(self, st, s):
        self.stmt(st, s["s"])

    def s_goto(self, st, s):
        self.unk("goto", s)

    def s_otherstmt(self, st, s):
        self.unk("stmt " + s["cls"], s)

    def s_switch(self, st, s):
        if s.get("init"):
            self.stmt(st, s["init"])
        c = self.rv(st, s["c"])
        if self.kind(s.get("ct", "int")) == "e" or True:
            pass
        body = s["body"]
        items = body["ss"] if body["k"] == "block" else [body]
        flat = []

        def lab(x):
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x.get("v") if x["k"] == "case" else None)
                x = x["s"]
            return labels, x

        for x in items:
            ls, y = lab(x)
            flat.append((ls, y))
        allc = [num(int(l)) for ls, _ in flat for l in ls if l is not None]
        conds = {l: dd_apply(lambda t: t_eq(t, l), c) for l in allc}
        anyc = FALSE
        for l in allc:
            anyc = dd_or(anyc, conds[l])
        hasdef = any(None in ls for ls, _ in flat)
        st0 = st.clone()
        brk = []
        self.fr().brk.append(brk)
        self.fr().cont.append(None)
        cur = st0.clone()
        cur.pc = FALSE
        try:
            for ls, y in flat:
                if ls:
                    cond = FALSE
                    for l in ls:
                        cond = dd_or(cond, dd_not(anyc) if l is None else conds[num(int(l))])
                    ent = st0.clone()
                    ent.pc = dd_and(st0.pc, cond)
                    if cur.pc is FALSE:
                        cur = ent
                    elif ent.pc is not FALSE:
                        n = St()
                        self.join(n, None, cur, ent)
                        cur = n
                if y is not None:
                    self.stmt(cur, y)
        finally:
            self.fr().brk.pop()
            self.fr().cont.pop()
        outs = brk + [cur]
        if not hasdef:
            ent = st0.clone()
            ent.pc = dd_and(st0.pc, dd_not(anyc))
            outs.append(ent)
        self.merge_states(st, outs)

    def merge_states(self, st, outs):
        outs = [o for o in outs if o.pc is not FALSE]
        if not outs:
            st.pc = FALSE
            return
        cur = outs[-1]
        for o in reversed(outs[:-1]):
            n = St()
            self.join(n, None, o, cur)
            cur = n
        st.take(cur)

    # ---------------------------------------------------------------- loops
    def s_for(self, st, s):
        if s.get("init"):
            self.stmt(st, s["init"])
        self.loop(st, s, (lambda q: self._cond(q, s)) if s.get("c") or s.get("cv") else None,
                  lambda q: self.stmt(q, s["body"]),
                  (lambda q: self.effect(q, s["inc"])) if s.get("inc") else None)

    def _cond(self, st, s):
        if s.get("cv"):
            self.decl(st, s["cv"])
        if s.get("c") is None:
            return TRUE
        return self.to_bool(self.rv(st, s["c"]))

    def s_while(self, st, s):
        self.loop(st, s, lambda q: self._cond(q, s), lambda q: self.stmt(q, s["body"]), None)

    def s_do(self, st, s):
        self.loop(st, s, lambda q: self._cond(q, s), lambda q: self.stmt(q, s["body"]), None, do=True)

    def s_rfor(self, st, s):
        self.stmt(st, s["range"])
        self.stmt(st, s["begin"])
        self.stmt(st, s["end"])

        def body(q):
            self.stmt(q, s["var"])
            self.stmt(q, s["body"])

        self.loop(st, s, lambda q: self.to_bool(self.rv(q, s["c"])), body, lambda q: self.effect(q, s["inc"]))

    def _norm_mod(self, loc, lid):
        """Generalise element locations whose index varies with the loop."""
        for p in range(1, len(loc) - 1):
            if loc[p] == "[]":
                i = loc[p + 1]
                if isinstance(i, T) and self._varies(i, lid):
                    return loc[:p + 1], "a"
        return None

    def _varies(self, t, lid):
        for x in term_subterms(t):
            if x.op in ("mu", "kappa") and (x.args[0] == lid or x.args[0] in self.inner.get(lid, ())):
                return True
            if x.op == "ev":
                return True
        return False

    def loop(self, st, node, cond, body, inc, do=False, tag=""):
        if st.pc is FALSE:
            return
        fr = self.fr()
        if self.unroll and not do and cond and self._unrolled(st, node, cond, body, inc):
            return
        lk = (id(node), tag, fr.key) + self.salt
        lid = self.lids.get(lk)
        if lid is None:
            lid = len(self.lids) + 1
            self.lids[lk] = lid
        for o in self.active:
            self.inner.setdefault(o, set()).add(lid)
        self.active.append(lid)
        kap = mkT("kappa", lid, isint=True, nn=True)
        mods = {}      # loc -> 'v' | 'a'
        induct = {}    # loc -> step
        inv = set()
        entry = st.clone()
        final = False
        for rnd in range(12):
            head = entry.clone()
            mus = {}
            for loc, k in sorted(mods.items(), key=lambda x: (len(x[0]), str(x[0]))):
                if k == "a":
                    self.clear(head, loc)
                    head.aggs[loc] = ("sym", mkT("mu", lid, loc), ())
            for loc, k in sorted(mods.items(), key=lambda x: (len(x[0]), str(x[0]))):
                if k == "v":
                    init = self.load(entry, loc, self.kinds.get(loc, "?"))
                    mus[loc] = self._mu(lid, loc, init, induct.get(loc), kap, entry)
                    head.mem[loc] = mus[loc]
            ev_save, self.ev = self.ev, []
            if not final:
                self.dry += 1
            self.wlogs.append(set())
            self.dlogs.append(set())
            fr.brk.append([])
            fr.cont.append([])
            nret = len(fr.rets)
            hs = head.clone()
            exits = []
            s = head.clone()
            if not do:
                c = self._loop_cond(cond, s, kap) if cond else TRUE
                c0 = c
                ex = s.clone()
                ex.pc = dd_and(s.pc, dd_not(c))
                s.pc = dd_and(s.pc, c)
                exits.append(ex)
            else:
                c0 = None
            body(s)
            conts = fr.cont.pop()
            if conts:
                self.merge_states(s, conts + [s.clone()])
            if do:
                if s.pc is not FALSE:
                    c = self._loop_cond(cond, s, kap)
                    c0 = c
                    ex = s.clone()
                    ex.pc = dd_and(s.pc, dd_not(c))
                    s.pc = dd_and(s.pc, c)
                    exits.append(ex)
            if inc and s.pc is not FALSE:
                inc(s)
            brks = fr.brk.pop()
            evs = self.ev
            self.ev = ev_save
            rets_new = fr.rets[nret:]
            w = self.wlogs.pop()
            dl = self.dlogs.pop()
            if not final:
                self.dry -= 1
            # what the loop changes among what lived before it
            ch = False
            new = dict(mods)
            for loc, k in w:
                root = loc[0]
                if root in dl:
                    continue
                if root[0] in ("v", "t", "h") and not self._known(entry, root):
                    continue
                g = self._norm_mod(loc, lid)
                if g:
                    loc, k = g
                if loc in inv and k == "v":
                    continue
                if any(loc[:n] in new and new[loc[:n]] == "a" for n in range(1, len(loc))) and k == "v" and loc not in new:
                    # covered by a havocked aggregate: keep scalar relation only if simple
                    if loc[-1] not in ("$n", "$h"):
                        continue
                if k == "a" and loc not in new and any(loc[:n] in new and new[loc[:n]] == "a" and loc[n - 1] == "[]" for n in range(1, len(loc))):
                    continue        # an element of a container whose elements are havocked
                if loc not in new or (new[loc] == "v" and k == "a"):
                    new[loc] = k
                    ch = True
            for loc in [l for l in new if new[l] == "a"]:
                if any(loc[:n] in new and new[loc[:n]] == "a" and loc[n - 1] == "[]" for n in range(1, len(loc))):
                    del new[loc]
                    ch = True
            for loc in [l for l in new if new[l] == "v"]:
                if any(loc[:n] in new and new[loc[:n]] == "a" for n in range(1, len(loc))) and loc[-1] not in ("$n", "$h"):
                    del new[loc]
                    induct.pop(loc, None)
                    ch = True
            if not ch and not final:
                # classify
                if s.pc is not FALSE:
                    for loc in list(mods):
                        if mods[loc] != "v":
                            continue
                        mu = mus[loc]
                        kd = self.kinds.get(loc, "?")
                        nx = self.load(s, loc, kd)
                        nx = dd_restrict(nx, s.pc)
                        if loc in induct:
                            exp = dd_apply(lambda t: self._step(t, induct[loc]), mu)
                            if nx is not exp and dd_restrict(exp, s.pc) is not nx:
                                induct[loc] = None
                                ch = True
                            continue
                        if nx is mu:
                            # unchanged on every back edge
                            inv.add(loc)
                            del new[loc]
                            ch = True
                            continue
                        step = self._find_step(nx, mu, lid)
                        if step is None:
                            step = self._lag_step(nx, self.load(entry, loc, kd), kap)
                        if step is not None:
                            induct[loc] = step
                            ch = True
                else:
                    assumed = any(x is not None for x in induct.values())
                    for loc in list(mods):
                        if mods[loc] != "v":
                            continue
                        if assumed:
                            # not under an assumed induction: look again
                            if induct.get(loc) is not None:
                                ch = True
                            induct[loc] = None
                        else:
                            inv.add(loc)
                            new.pop(loc, None)
                            ch = True
            if not ch and final:
                break
            del fr.rets[nret:]
            if not ch:
                final = True
            else:
                final = False
                mods = new
            if rnd >= 9 and not final:
                # give up refining: havoc only
                induct = {k: None for k in mods}
                final = True
                mods = new
        self.active.pop()
        if self.wlogs:
            self.wlogs[-1] |= {x for x in w if x[0][0] not in dl}
        if self.dlogs:
            self.dlogs[-1] |= dl
        if not do and len(exits) == 1:
            c0, brks = self._fold_breaks(c0, brks, exits[0], head, mods, evs)
        if not do and isinstance(c0, N):
            c0 = self._tighten(c0, kap, lid, entry.pc)
        if not do and not [b for b in brks if b.pc is not FALSE] and len(exits) == 1:
            n = self._trip_count(c0, kap, lid, entry.pc)
            if n is not None and (isinstance(n, T) or not self._keyed(exits[0], kap)):
                self._subst_state(exits[0], kap, n)
        L = Loop()
        L.lid, L.kappa, L.pc, L.cond, L.mods, L.back, L.head = lid, kap, entry.pc, c0, dict(mods), s, head
        L.ev, L.line, L.file, L.exits, L.entry, L.kind = evs, node.get("l", 0), self.file_of(fr.f), exits, entry, node["k"]
        L.induct, L.fn, L.breaks = {k: v for k, v in induct.items() if v is not None}, fr.f, brks
        L.returns = len(fr.rets) > nret
        self.ev.append(L)
        self.loops[lid] = L
        outs = exits + brks
        self.merge_states(st, outs)
        L.after = st.clone()
        # forget locals of the body
        for d in (st.mem, st.aggs, st.idx):
            for k in [k for k in d if k[0] in dl and k[0][0] in ("v",)]:
                del d[k]

    def _fold_breaks(self, c0, brks, ex, head, mods, evs):
        """A loop left at the beginning of its body, before anything changed, is a loop with a stronger condition."""
        rest = []
        for b in brks:
            if b.pc is FALSE:
                continue
            same = all(e.pc is FALSE or dd_and(e.pc, b.pc) is FALSE for e in evs)
            for x in (ex, b):
                for loc, k in mods.items():
                    if not same:
                        break
                    if k == "v":
                        kd = self.kinds.get(loc, "?")
                        same = self.load(x, loc, kd) is self.load(head, loc, kd)
                    else:
                        n = len(loc)
                        for d, e in ((x.mem, head.mem), (x.aggs, head.aggs)):
                            same = same and all(e.get(q) is v for q, v in d.items() if q[:n] == loc)
            for d, e in ((b.mem, ex.mem), (b.aggs, ex.aggs)):
                same = same and all(e[q] is v for q, v in d.items() if q in e)
            if not same:
                rest.append(b)
                continue
            c0 = dd_and(c0, dd_not(b.pc))
            ex.pc = dd_or(ex.pc, b.pc)
        return c0, rest

    def _tighten(self, c, kap, lid, pc):
        """kappa counts up from zero: a loop that ends at kappa == m is never at kappa > m."""
        seen = set()
        for v in sorted(atoms(c), key=str):
            kind, q = fam_of(v)
            if kind != "cut" or not q.isint or q in seen or not any(y is kap for y in term_subterms(q)):
                continue
            seen.add(q)
            r = t_sub(q, kap)
            if self._varies(r, lid):
                continue
            for k in sorted({v2[1][0] for v2 in atoms(c) if fam_of(v2) == (kind, q)}):
                # q == k - 1, i.e. kappa == k - 1 - r =: m, with m >= 0
                m = t_sub(num(k - 1), r)
                if not (m.nn or m.op == "num" and m.args[0] >= 0):
                    continue
                at = dd_and(dd_not(t_lt(kap, m)), t_lt(kap, t_add(m, ONE)))
                if dd_and(dd_and(c, pc), at) is FALSE:
                    c = dd_and(c, t_lt(kap, m))
        return c

    def _unrolled(self, st, node, cond, body, inc):
        """Execute a loop with a constant number of turns turn by turn."""
        fr, salt0 = self.fr(), self.salt
        probe = st.clone()
        nret = len(fr.rets)
        ev0 = self.ev
        self.ev = []
        outs, good = [], False
        for k in range(self.unroll + 1):
            self.salt = salt0 + ((id(node), k),)
            c = cond(probe)
            c = dd_restrict(c, probe.pc) if isinstance(c, (T, N)) and isinstance(probe.pc, N) else c
            if c is FALSE or probe.pc is FALSE:
                outs.append(probe)
                good = True
                break
            if c is not TRUE or k == self.unroll:
                break
            fr.brk.append([])
            fr.cont.append([])
            body(probe)
            conts = fr.cont.pop()
            if conts:
                self.merge_states(probe, conts + [probe.clone()])
            if inc and probe.pc is not FALSE:
                inc(probe)
            outs += fr.brk.pop()
        self.salt = salt0
        evs, self.ev = self.ev, ev0
        if not good:
            del fr.rets[nret:]
            return False
        self.ev += evs
        self.merge_states(st, outs)
        return True

    def _trip_count(self, c, kap, lid, pc):
        """n (term or diagram) if the loop condition is exactly  kappa < n."""
        if isinstance(pc, N):
            c = dd_restrict(c, pc)
        if c is FALSE:
            return ZERO
        if not isinstance(c, N):
            return None
        kind, q = fam_of(c.v)
        if kind == "cut":
            if any(y is kap for y in term_subterms(q)):
                return self._trip_count1(c, kap, lid)
        if self._varies(q, lid):
            return None
        h, l = self._trip_count(c.hi, kap, lid, TRUE), self._trip_count(c.lo, kap, lid, TRUE)
        if h is None or l is None:
            return None
        return dd_ite(mk(c.v, TRUE, FALSE), h, l)

    def _trip_count1(self, c, kap, lid):
        if not isinstance(c, N) or c.hi is not TRUE and c.hi is not FALSE:
            return None
        if c.lo is not TRUE and c.lo is not FALSE:
            return None
        kind, q = fam_of(c.v)
        k, s = c.v[1]
        if kind != "cut" or not q.isint:
            return None
        # q < k (hi)
        d = dict(q.args) if q.op == "poly" else {((q, 1),): Fraction(1)}
        co = d.pop(((kap, 1),), None)
        if co not in (1, -1):
            return None
        rest = ZERO
        for m, x in d.items():
            t = num(x)
            for a, e in m:
                for _ in range(abs(e)):
                    t = t_mul(t, a) if e > 0 else t_fdiv(t, a)
            rest = t_add(rest, t)
        if self._varies(rest, lid):
            return None
        if co == 1 and c.hi is TRUE:       # kappa + rest < k
            n = t_sub(num(k), rest)
        elif co == -1 and c.hi is FALSE:   # rest - kappa >= k
            n = t_add(t_sub(rest, num(k)), ONE)
        else:
            return None
        return n if n.nn else dd_ite(t_lt(n, ZERO), ZERO, n)

    def _keyed(self, st, kap):
        """kappa occurs in a location of the state."""
        return any(y is kap for d in (st.mem, st.aggs, st.idx) for k in d for y in term_subterms(k))

    def _subst_state(self, st, kap, n):
        memo = {}
        f = lambda t: n if t is kap else None

        def s(x):
            return subst_term(x, f, memo)

        def has(x):
            return any(y is kap for y in term_subterms(x)) if isinstance(x, (T, N)) else (
                any(has(y) for y in x) if isinstance(x, tuple) else False)
        st.pc = s(st.pc)
        for d in (st.mem, st.aggs, st.idx):
            for k in list(d):
                k2 = s(k) if has(k) else k
                v = d[k]
                if isinstance(v, (T, N)):
                    v2 = s(v)
                elif isinstance(v, tuple):
                    v2 = s(v)
                elif isinstance(v, list):
                    v2 = [s(x) if isinstance(x, (T, N)) else x for x in v]
                else:
                    v2 = v
                if k2 is not k:
                    del d[k]
                d[k2] = v2

    def _loop_cond(self, cond, s, kap):
        """kappa != n guards of a counting loop read as kappa < n."""
        had = kap in COND_KAPPA
        COND_KAPPA.add(kap)
        try:
            return cond(s)
        finally:
            if not had:
                COND_KAPPA.discard(kap)

    def _known(self, st, root):
        for d in (st.mem, st.aggs):
            for k in d:
                if k[0] == root:
                    return True
        return False

    def _step(self, t, c):
        c = c if isinstance(c, T) else num(c)
        if t.op == "it":
            return it(t.args[0], t_add(t.args[1], c))
        return t_add(t, c)

    def _find_step(self, nx, mu, lid=None):
        if isinstance(mu, N) or isinstance(nx, N):
            return None
        a, b = nx, mu
        if a.op == "it" and b.op == "it" and a.args[0] is b.args[0]:
            a, b = a.args[1], b.args[1]
        elif a.op in ("it", "ptr", "str", "cat", "null") or b.op in ("it", "ptr", "str", "cat", "null"):
            return None
        p = t_sub(a, b)
        if p.op == "num" and p.args[0] != 0 and p.isint and (a.isint and b.isint):
            return p.args[0]
        if p.op != "num" and p.isint and a.isint and b.isint and lid is not None and all(
                x.op in ("ld", "obj", "num", "poly", "arg") or (x.op in ("mu", "kappa") and x.args[0] != lid and x.args[0] not in self.inner.get(lid, ())) or not x.args for x in term_subterms(p)):
            return p        # a symbolic step that the loop does not change
        return None

    def _lag_step(self, nx, init, kap):
        """The step of a variable that is set, not advanced, in each iteration: its next value is init + c*(kappa+1)."""
        if isinstance(nx, N) or isinstance(init, N) or nx is init:
            return None
        a, b = nx, init
        if a.op == "it" and b.op == "it" and a.args[0] is b.args[0]:
            a, b = a.args[1], b.args[1]
        elif a.op in ("it", "ptr", "str", "cat", "null") or b.op in ("it", "ptr", "str", "cat", "null"):
            return None
        if not (a.isint and b.isint):
            return None
        for c in (1, -1):
            if t_sub(t_sub(a, b), t_mul(num(c), t_add(kap, ONE))) is ZERO:
                return c
        return None

    def _mu(self, lid, loc, init, step, kap, st):
        if isinstance(init, N):
            ls = leaves(init)
            if all(l.op == "it" for l in ls) and len({l.args[0] for l in ls}) == 1:
                if step is not None:
                    return dd_apply(lambda t: it(t.args[0], t_add(t.args[1], t_mul(step if isinstance(step, T) else num(step), kap))), init)
                return it(ls[0].args[0], mkT("mu", lid, loc, isint=True))
            if step is not None:
                return dd_apply(lambda t: t_add(t, t_mul(step if isinstance(step, T) else num(step), kap)), init)
        elif init.op == "it":
            if step is not None:
                return it(init.args[0], t_add(init.args[1], t_mul(step if isinstance(step, T) else num(step), kap)))
            return it(init.args[0], mkT("mu", lid, loc, isint=True))
        elif step is not None:
            return t_add(init, t_mul(step if isinstance(step, T) else num(step), kap))
        kd = self.kinds.get(loc, "?")
        m = mkT("mu", lid, loc, isint=kd in "iue" or loc[-1] in ("$n", "$h"), nn=kd == "u" or loc[-1] == "$n",
                enum=kd == "e")
        if kd == "b":
            return atom_nz(m)
        return m

    # ---------------------------------------------------------- expressions
    def rv(self, st, e):
        """Scalar value of e."""
        if st.pc is FALSE:
            return ZERO
        self.steps += 1
        m = getattr(self, "r_" + e["k"], None)
        if m is None:
            return self.unk("expr " + e["k"] + " " + str(e.get("cls", "")), e)
        return m(st, e)

    def lv(self, st, e):
        """Address of e."""
        if st.pc is FALSE:
            return ptr((("dead",),))
        m = getattr(self, "l_" + e["k"], None)
        if m is None:
            # a prvalue bound to a reference
            return self.materialise(st, e)
        return m(st, e)

    def materialise(self, st, e):
        loc = self.tmp(e)
        k = self.kind(e.get("t", "?"))
        if k in ("c", "a"):
            self.into(st, e, loc)
        elif k == "r":
            return self.rv(st, e)
        else:
            self.store(st, loc, self.rv(st, e), k)
        return ptr(loc)

    def loadp(self, st, p, kind):
        """Load through a pointer value (diagram of pointers)."""
        return dd_apply(lambda q: self._ldp(st, q, kind), p)

    def _ldp(self, st, q, kind):
        if q.op == "str" and kind in "iu":
            return mkT("char", q, isint=True)
        return self.load(st, loc_of(q), kind)

    def storep(self, st, p, v, kind):
        if isinstance(st.pc, N):
            p = dd_restrict(p, st.pc)
        if not isinstance(p, N):
            self.store(st, loc_of(p), v, kind)
            return
        for l in sorted(leaves(p), key=lambda t: t.id):
            c = dd_apply(lambda t: TRUE if t is l else FALSE, p)
            loc = loc_of(l)
            old = self.load(st, loc, kind)
            self.store(st, loc, dd_ite(c, v, old), kind)

    # --- leaves
    def r_int(self, st, e):
        return num(int(e["v"]))

    def r_bool(self, st, e):
        return TRUE if e["v"] else FALSE

    def r_float(self, st, e):
        v = e["v"]
        if v in ("+Inf", "inf", "INF"):
            return mkT("fspecial", "inf")
        try:
            return num(decimal_of(v))
        except ValueError:
            return mkT("fspecial", v)

    def r_str(self, st, e):
        return string(e["v"])

    def l_str(self, st, e):
        loc = self.tmp(e)
        self.store(st, loc, string(e["v"]), "s")
        return ptr(loc)

    def r_null(self, st, e):
        return NULL

    def r_zero(self, st, e):
        k = self.kind(e["t"])
        return NULL if k == "p" else (string("") if k == "s" else ZERO)

    def r_this(self, st, e):
        return self.this_ptr(st)

    def this_ptr(self, st):
        fr = self.fr()
        if fr.closure is not None:
            return self.load(st, fr.closure + ("$this",), "p")
        return fr.this

    def l_this(self, st, e):
        raise Unsupported("this lvalue")

    def var_loc(self, st, e):
        fr = self.fr()
        dk = e.get("dk")
        if dk in ("global", "slocal"):
            if dk == "slocal":
                return (("G", e["d"], fr.tu, e["n"]),)
            return (("G", e.get("qn", e["n"]), fr.tu if not e.get("const") else "", e["n"]),)
        if fr.closure is not None:
            c = fr.caps.get(e["d"]) if fr.caps else None
            if c is not None:
                return None
        return (("v", e["d"], fr.key, e["n"]),)

    def l_ref(self, st, e):
        fr = self.fr()
        if fr.closure is not None and fr.caps and e["d"] in fr.caps:
            byref = fr.caps[e["d"]]
            cl = fr.closure + ("cap:%d" % e["d"],)
            if byref:
                return self.load(st, cl, "p")
            if self.kind(e["t"]) == "r":
                return ptr(cl)
            return ptr(cl)
        loc = self.var_loc(st, e)
        if self.kind(e["t"]) == "r":
            return self.load(st, loc, "p")
        if e.get("dk") == "global" and e.get("const") and not self._known(st, loc[0]):
            self.init_global(st, e, loc)
            if not self._known(st, loc[0]) and ("cv" in e or "cvf" in e):
                self.store(st, loc, num(int(e["cv"])) if "cv" in e else self.r_float(st, {"v": e["cvf"]}), self.kind(e["t"]))
        return ptr(loc)

    def init_global(self, st, e, loc):
        for tu, v in self.P.vars:
            if v["n"] == e.get("qn") and v.get("init") is not None and v.get("const"):
                fr = self.fr()
                save = fr.tu
                try:
                    fr.tu = tu
                    self.init_loc(st, loc, v["t"], v["init"])
                finally:
                    fr.tu = save
                return

    def r_ref(self, st, e):
        if e.get("dk") == "enum":
            return num(int(e["v"]))
        if "cv" in e:
            return num(int(e["cv"]))
        if "cvf" in e:
            return self.r_float(st, {"v": e["cvf"]})
        k = self.kind(e["t"])
        if k == "r":
            k = self.kind(self.deref_t(e["t"]))
        return self.loadp(st, self.l_ref(st, e), k)

    def r_bindref(self, st, e):
        return self.rv(st, e["e"])

    def l_bindref(self, st, e):
        return self.lv(st, e["e"])

    def base_ptr(self, st, e):
        return self.rv(st, e["b"]) if e.get("arrow") else self.lv(st, e["b"])

    def l_mem(self, st, e):
        b = self.base_ptr(st, e)
        f = e["f"]
        p = dd_apply(lambda q: ptr(loc_of(q) + (f,)), b)
        # reference member
        if self.field_is_ref(e):
            return self.loadp(st, p, "p")
        return p

    def field_is_ref(self, e):
        r = self.P.records.get(e.get("own"))
        if r:
            for f in r["fields"]:
                if f["n"] == e["f"]:
                    return self.kind(f["t"]) == "r"
        return False

    def r_mem(self, st, e):
        return self.loadp(st, self.l_mem(st, e), self.kind(e["t"]))

    def r_mat(self, st, e):
        return self.rv(st, e["e"])

    def l_mat(self, st, e):
        return self.materialise(st, e["e"]) if not (e["e"]["k"] in ("call",) and e["e"].get("gl")) else self.lv(st, e["e"])

    def r_defarg(self, st, e):
        return self.rv(st, e["e"])

    def l_defarg(self, st, e):
        return self.lv(st, e["e"])

    # --- casts
    def r_cast(self, st, e):
        ck = e["ck"]
        if ck == "LValueToRValue":
            s = e["e"]
            if s["k"] == "ref":
                return self.r_ref(st, s) if self.kind(s["t"]) != "c" or True else None
            return self.loadp(st, self.lv(st, s), self.kind(e["t"]))
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "BooleanToSignedIntegral"):
            v = self.rv(st, e["e"])
            if ck == "IntegralCast":
                self.note_narrow(st, e, v)
            return v
        if ck == "FloatingToIntegral":
            return dd_apply(t_trunc, self.rv(st, e["e"]))
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.to_bool(self.rv(st, e["e"])) if ck != "FloatingToBoolean" else dd_apply(
                lambda t: dd_not(t_eq(t, ZERO)), self.rv(st, e["e"]))
        if ck == "NullToPointer":
            return NULL
        if ck == "ArrayToPointerDecay":
            s = e["e"]
            if s["k"] == "str":
                return string(s["v"])
            p = self.lv(st, s)
            return dd_apply(lambda q: it(ptr(loc_of(q)), ZERO), p)
        if ck == "ToVoid":
            self.effect(st, e["e"])
            return ZERO
        if ck in ("BitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic", "LValueBitCast",
                  "AtomicToNonAtomic", "NonAtomicToAtomic", "CPointerToObjCPointerCast"):
            if self.kind(e["t"]) in ("c",):
                return self.lv(st, e["e"])
            return self.rv(st, e["e"])
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return self.rv(st, e["e"])
        return self.unk("cast " + ck, e)

    def note_narrow(self, st, e, v):
        pass

    def l_cast(self, st, e):
        ck = e["ck"]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast", "Dynamic"):
            return self.lv(st, e["e"])
        if ck == "LValueToRValue" and self.kind(e["t"]) == "c":
            return self.lv(st, e["e"])
        return self.materialise(st, e)

    # --- operators
    def r_un(self, st, e):
        op = e["op"]
        if op == "!":
            return dd_not(self.to_bool(self.rv(st, e["e"])))
        if op == "-":
            return dd_apply(t_neg, self.rv(st, e["e"]))
        if op == "+" or op == "__extension__":
            return self.rv(st, e["e"])
        if op == "&":
            return self.lv(st, e["e"])
        if op == "*":
            return self.loadp(st, self.rv(st, e["e"]), self.kind(e["t"]))
        if op in ("++", "--"):
            p = self.lv(st, e["e"])
            k = self.kind(e["e"]["t"])
            old = self.loadp(st, p, k)
            c = 1 if op == "++" else -1
            new = dd_apply(lambda t: self._step(t, c), old)
            self.storep(st, p, new, k)
            return old if e["post"] else new
        if op == "~":
            return dd_apply(lambda t: mkT("bitnot", t, isint=True), self.rv(st, e["e"]))
        return self.unk("unary " + op, e)

    def l_un(self, st, e):
        op = e["op"]
        if op == "*":
            return self.rv(st, e["e"])
        if op in ("++", "--") and not e["post"]:
            self.r_un(st, e)
            return self.lv(st, e["e"])
        return self.materialise(st, e)

    def arith(self, op, a, b, t=None, at=None, node=None):
        """Binary arithmetic on diagrams; a, b may be pointers/iterators."""
        isint = self.kind(t) in ("i", "u", "e", "b") if t else False
        if op == "/":
            f = t_idiv if isint else t_fdiv
        elif op == "%":
            f = t_imod
        elif op == "*":
            f = t_mul
        elif op in ("+", "-"):
            f = lambda x, y: self.padd(x, y, op)
        elif op in ("<<", ">>", "&", "|", "^"):
            f = lambda x, y: self.bitop(op, x, y)
        else:
            return self.unk("op " + op, node)
        return dd_apply(f, a, b)

    def bitop(self, op, x, y):
        if is_num(x) and is_num(y) and x.isint and y.isint:
            a, b = int(x.args[0]), int(y.args[0])
            return num({"<<": a << b if b < 200 else 0, ">>": a >> b, "&": a & b, "|": a | b, "^": a ^ b}[op])
        if op == "<<" and is_num(y):
            return t_mul(x, num(2 ** int(y.args[0])))
        if op in ("&", "|", "^"):
            x, y = sorted((x, y))
        return mkT("bit" + op, x, y, isint=True)

    def padd(self, x, y, op):
        if x.op == "it" or y.op == "it" or x.op == "ptr" or y.op == "ptr":
            if x.op == "ptr":
                x = self.as_it(x)
            if y.op == "ptr":
                y = self.as_it(y)
            if x.op == "it" and y.op == "it":
                if op == "-" and x.args[0] is y.args[0]:
                    return t_sub(x.args[1], y.args[1])
                return mkT("itdiff", x, y, isint=True)
            if op == "+":
                i, n = (x, y) if x.op == "it" else (y, x)
                return it(i.args[0], t_add(i.args[1], n))
            if x.op == "it":
                return it(x.args[0], t_sub(x.args[1], y))
            return mkT("ptrarith", x, y)
        return t_add(x, y) if op == "+" else t_sub(x, y)

    def as_it(self, p):
        loc = p.args[0]
        if len(loc) >= 3 and loc[-2] == "[]":
            return it(ptr(loc[:-2]), loc[-1])
        return p

    def compare(self, op, a, b):
        if op == "==":
            return dd_apply(self._eq, a, b)
        if op == "!=":
            return dd_not(dd_apply(self._eq, a, b))
        if op == "<":
            return dd_apply(self._lt, a, b)
        if op == ">":
            return dd_apply(self._lt, b, a)
        if op == "<=":
            return dd_apply(self._le, a, b)
        if op == ">=":
            return dd_apply(self._le, b, a)
        raise Unsupported(op)

    def _le(self, x, y):
        return FALSE if is_nan(x) or is_nan(y) else dd_not(self._lt(y, x))

    def _eq(self, x, y):
        if is_nan(x) or is_nan(y):
            return FALSE
        if x.op == "ptr" and y.op == "it":
            x = self.as_it(x)
        if y.op == "ptr" and x.op == "it":
            y = self.as_it(y)
        return t_eq(x, y, "cmp")

    def _lt(self, x, y):
        if is_nan(x) or is_nan(y):
            return FALSE
        if x.op == "ptr":
            x = self.as_it(x)
        if y.op == "ptr":
            y = self.as_it(y)
        if x.op == "it" and y.op == "it":
            if x.args[0] is y.args[0]:
                return t_lt(x.args[1], y.args[1])
            return atom_nz(mkT("lt", x, y))
        if x.op in ("str", "cat", "ptr", "null") or y.op in ("str", "cat", "ptr", "null"):
            return atom_nz(mkT("lt", x, y))
        return t_lt(x, y)

    def r_bin(self, st, e):
        op = e["op"]
        if op == "=":
            k = self.kind(e["a"]["t"])
            v = self.rv(st, e["b"])
            p = self.lv(st, e["a"])
            if k == "b":
                v = self.to_bool(v)
            self.storep(st, p, v, k)
            return v
        if op == "&&":
            a = self.to_bool(self.rv(st, e["a"]))
            r = self.branch(st, a, lambda s: self.to_bool(self.rv(s, e["b"])), lambda s: FALSE)
            return r if r is not None else FALSE
        if op == "||":
            a = self.to_bool(self.rv(st, e["a"]))
            r = self.branch(st, a, lambda s: TRUE, lambda s: self.to_bool(self.rv(s, e["b"])))
            return r if r is not None else TRUE
        if op == ",":
            self.effect(st, e["a"])
            return self.rv(st, e["b"])
        a = self.rv(st, e["a"])
        b = self.rv(st, e["b"])
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if op not in ("==", "!=") and not self.dry:
                self.note_wrap(st, e["a"], a)
                self.note_wrap(st, e["b"], b)
            return self.compare(op, a, b)
        return self.arith(op, a, b, e["t"], node=e)

    def note_wrap(self, st, e, v):
        """An unsigned difference is compared: it must not be below zero."""
        if self.kind(e["t"]) != "u":
            return
        d = [x for x in (leaves(v) if isinstance(v, N) else [v]) if isinstance(x, T) and (x.op == "poly" and any(c < 0 for _, c in x.args) or x.op == "num" and x.args[0] < 0)]
        if d:
            acc = getattr(self, "wraps", None)
            if acc is None:
                acc = self.wraps = []
            acc.append({"where": self.where(e), "pc": st.pc, "cond": dd_apply(lambda x: dd_not(t_lt(x, ZERO)) if x in d else TRUE, v), "fn": self.fr().f.qn})

    def l_bin(self, st, e):
        if e["op"] == "=":
            self.r_bin(st, e)
            return self.lv(st, e["a"])
        if e["op"] == ",":
            self.effect(st, e["a"])
            return self.lv(st, e["b"])
        return self.materialise(st, e)

    def r_cassign(self, st, e):
        k = self.kind(e["a"]["t"])
        b = self.rv(st, e["b"])
        p = self.lv(st, e["a"])
        a = self.loadp(st, p, k)
        v = self.arith(e["op"], a, b, e.get("ct", e["t"]), node=e)
        if k in "iu" and self.kind(e.get("ct", e["t"])) == "f":
            v = dd_apply(t_trunc, v)
        if k == "b":
            v = self.to_bool(v)
        self.storep(st, p, v, k)
        return v

    def l_cassign(self, st, e):
        self.r_cassign(st, e)
        return self.lv(st, e["a"])

    def r_cond(self, st, e):
        c = self.to_bool(self.rv(st, e["c"]))
        r = self.branch(st, c, lambda s: self.rv(s, e["a"]), lambda s: self.rv(s, e["b"]))
        return r if r is not None else ZERO

    def l_cond(self, st, e):
        if not e.get("gl"):
            return self.materialise(st, e)
        c = self.to_bool(self.rv(st, e["c"]))
        r = self.branch(st, c, lambda s: self.lv(s, e["a"]), lambda s: self.lv(s, e["b"]))
        return r if r is not None else ptr((("dead",),))

    def l_sub(self, st, e):
        b = self.rv(st, e["b"])
        i = self.rv(st, e["i"])
        return dd_apply(lambda x, y: self._subp(x, y), b, i)

    def _subp(self, x, y):
        if x.op == "ptr":
            x = self.as_it(x)
        if x.op == "it":
            return ptr(loc_of(x.args[0]) + ("[]", t_add(x.args[1], y)))
        return ptr((("D", x), "[]", y))

    def r_sub(self, st, e):
        return self.loadp(st, self.l_sub(st, e), self.kind(e["t"]))

    def r_fnref(self, st, e):
        return mkT("fn", e["fn"].get("mg") or e["fn"]["qn"], tag=(self.fr().tu, e["fn"]))

    def l_fnref(self, st, e):
        return self.r_fnref(st, e)

    def r_new(self, st, e):
        root = ("h", self.key("new", id(e), self.fr().key))
        loc = (root,)
        k = self.kind(e["at"])
        self.clear(st, loc)
        if e.get("arr"):
            self.set_agg(st, loc, ("zero",))
        elif k == "c":
            if e.get("init"):
                self.into(st, e["init"], loc)
        elif e.get("init"):
            self.store(st, loc, self.rv(st, e["init"]), k)
        return ptr(loc)

    def r_delete(self, st, e):
        self.rv(st, e["e"])
        return ZERO

    def r_throw(self, st, e):
        self.emit("throw", "throw", st, e)
        st.pc = FALSE
        return ZERO

    def r_init(self, st, e):
        if len(e["es"]) == 1:
            return self.rv(st, e["es"][0])
        if not e["es"]:
            return self.r_zero(st, e)
        return self.unk("init scalar", e)

    def r_initlist_std(self, st, e):
        # pointer-like handle on a backing array with its length
        loc = self.tmp(e)
        self.into(st, e["e"]["e"] if e["e"]["k"] == "mat" else e["e"], loc)
        return ptr(loc)

    def l_initlist_std(self, st, e):
        loc = self.tmp(e, "il")
        self.store(st, loc, self.r_initlist_std(st, e), "p")
        return ptr(loc)

    def r_stmtexpr(self, st, e):
        self.stmt(st, e["s"])
        return self.unk("stmtexpr", e)

    def r_lambda(self, st, e):
        return self.lv(st, e)

    # ------------------------------------------------------- class prvalues
    def into(self, st, e, loc):
        """Evaluate class-type expression e into the object at loc."""
        if st.pc is FALSE:
            return
        k = e["k"]
        if k in ("mat", "defarg"):
            return self.into(st, e["e"], loc)
        if k == "ctor":
            return self.construct(st, e, loc)
        if k == "call":
            if e.get("gl"):
                p = self.lv(st, e)
                self.split(st, p, lambda s, q: self.copy_obj(s, loc_of(q), loc))
                return
            self.call(st, e, loc)
            return
        if k == "cond":
            c = self.to_bool(self.rv(st, e["c"]))
            self.branch(st, c, lambda s: self.into(s, e["a"], loc), lambda s: self.into(s, e["b"], loc))
            return
        if k == "init":
            return self.init_into(st, e, loc)
        if k == "lambda":
            return self.closure_into(st, e, loc)
        if k == "zero":
            self.set_agg(st, loc, ("zero",))
            return
        if k == "cast":
            if self.kind(e["t"]) != "c":
                self.store(st, loc, self.rv(st, e), self.kind(e["t"]))
                return
            if e["e"].get("k") in ("call", "ctor", "cond", "init", "lambda") and not e["e"].get("gl"):
                return self.into(st, e["e"], loc)
            p = self.lv(st, e["e"])
            self.split(st, p, lambda s, q: self.copy_obj(s, loc_of(q), loc))
            return
        if k == "arrinit":
            p = self.lv(st, e["e"])
            self.split(st, p, lambda s, q: self.copy_obj(s, loc_of(q), loc))
            return
        if k in ("ref", "mem", "un", "sub", "bindref", "bin"):
            if k == "bin" and e["op"] == ",":
                self.effect(st, e["a"])
                return self.into(st, e["b"], loc)
            p = self.lv(st, e)
            self.split(st, p, lambda s, q: self.copy_obj(s, loc_of(q), loc))
            return
        if k == "stmtexpr":
            self.rv(st, e)
            self.set_agg(st, loc, ("sym", self.unk("stmtexpr", e), ()))
            return
        if k == "str":
            self.store(st, loc, string(e["v"]), "s")
            return
        self.set_agg(st, loc, ("sym", self.unk("into " + k, e), ()))

    def init_into(self, st, e, loc):
        if e.get("rec"):
            self.clear(st, loc)
            st.aggs[loc] = ("zero",)
            self.log((loc, "a"))
            for f, x in zip(e["fields"], e["es"]):
                if x is None:
                    continue
                if f.startswith("<base:"):
                    self.into(st, x, loc)
                    continue
                t = x.get("t", "?")
                self.init_loc(st, loc + (f,), t, x)
            return
        # array
        self.clear(st, loc)
        st.aggs[loc] = ("zero",)
        self.log((loc, "a"))
        for i, x in enumerate(e["es"]):
            self.init_loc(st, loc + ("[]", num(i)), x.get("t", "?"), x)
        self.store(st, loc + ("$n",), num(len(e["es"])), "u")

    def closure_into(self, st, e, loc):
        self.clear(st, loc)
        st.aggs[loc] = ("zero",)
        self.log((loc, "a"))
        self.store(st, loc + ("$fn",), mkT("lam", self.fr().tu, e["cls"]), "p")
        for c in e["caps"]:
            if c.get("this"):
                self.store(st, loc + ("$this",), self.this_ptr(st), "p")
                continue
            cl = loc + ("cap:%d" % c["d"],)
            if c["byref"]:
                self.store(st, cl, self.lv(st, c["init"]), "p")
            else:
                t = c["init"].get("t", "?")
                k = self.kind(t)
                if k == "c":
                    self.into(st, c["init"], cl)
                else:
                    self.store(st, cl, self.rv(st, c["init"]), k)

    def l_lambda(self, st, e):
        loc = self.tmp(e)
        self.closure_into(st, e, loc)
        return ptr(loc)

    def r_ctor(self, st, e):
        # scalar-kind class (string, iterator, unique_ptr, ...)
        return self.models.ctor_scalar(self, st, e)

    def construct(self, st, e, loc):
        """Run the constructor call e on the object at loc."""
        if self.kind(e["t"]) != "c":
            self.store(st, loc, self.rv(st, e), self.kind(e["t"]))
            return
        fn = e["fn"]
        ck = fn.get("ck")
        cls = strip_tpl(self.cls(e["t"]))
        if ck in ("copy", "move") and (fn.get("implicit") or not fn.get("body")):
            a = e["args"][0]
            return self.from_expr(st, a, loc)
        f = self.resolve(fn)
        if f is not None and fn.get("ck") != "implicit":
            vals = self.eval_args(st, fn, e["args"], e)
            if st.pc is FALSE:
                return
            self.clear(st, loc)
            st.aggs[loc] = ("zero",) if e.get("zero") else ("sym", mkT("uninit", ("obj", loc[0])), ())
            self.log((loc, "a"))
            self.store(st, loc + ("$type",), string(cls), "s")
            self.invoke(st, f, ptr(loc), vals, None, ("ctor", id(e)))
            self.store(st, loc + ("$type",), string(cls), "s")
            return
        return self.models.ctor_class(self, st, e, loc, cls)

    def from_expr(self, st, a, loc):
        """Copy/move-construct the object at loc from expression a."""
        while a["k"] in ("mat", "defarg"):
            a = a["e"]
        self.into(st, a, loc)

    # --------------------------------------------------------------- calling
    def resolve(self, fn):
        """Definition of the callee inside the repository, if any."""
        tu = self.fr().tu
        f = self.P.byid.get((tu, fn["id"]))
        if f is not None and f.d.get("body") is not None or (f is not None and "inits" in f.d):
            if f.qn in self.opaque:
                return None
            return f
        mg = fn.get("mg")
        if mg:
            f = self.P.internal.get((tu, mg)) or self.P.funcs.get(mg)
            if f is not None and f.qn not in self.opaque:
                return f
        return None

    def eval_args(self, st, fn, args, node):
        """Values for the parameters: pointer DD for references and classes, DD for scalars."""
        vals = []
        pts = fn["pt"]
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else a.get("t", "?")
            k = self.kind(t)
            if k == "r":
                vals.append(self.lv(st, a))
            elif k == "c":
                loc = self.tmp(a, "arg")
                self.from_expr(st, a, loc)
                vals.append(ptr(loc))
            elif k == "a":
                vals.append(self.lv(st, a))
            else:
                v = self.rv(st, a)
                if k == "b":
                    v = self.to_bool(v)
                vals.append(v)
        return vals

    def r_call(self, st, e):
        k = self.kind(e["t"])
        if e.get("gl"):
            p = self.call(st, e, None)
            return self.loadp(st, p, k) if k not in ("c",) else p
        if k == "c":
            loc = self.tmp(e)
            self.call(st, e, loc)
            return ptr(loc)
        v = self.call(st, e, None)
        if v is None:
            return ZERO
        return v

    def l_call(self, st, e):
        if e.get("gl"):
            p = self.call(st, e, None)
            return p if p is not None else ptr((("dead",),))
        return self.materialise(st, e)

    def obj_ptr(self, st, e):
        if e.get("obj") is None:
            return None
        if e.get("arrow"):
            return self.rv(st, e["obj"])
        return self.lv(st, e["obj"])

    def call(self, st, e, dst):
        """Evaluate a call. Returns a scalar DD, a pointer DD for glvalues, or fills dst."""
        self.calls_seen += 1
        fn = e.get("fn")
        if fn is None:
            # through a function pointer / std::function / closure expression
            x = e.get("fnx")
            if x is not None and self.kind(x.get("t", "?")) == "p":
                v = self.rv(st, x)
                return self.call_value(st, e, v, dst)
            return self.unk("indirect call", e)
        # operator= on repo aggregates / messages
        name = strip_tpl(fn["qn"])
        fn_ck = fn.get("ck")
        if fn_ck in ("copyassign", "moveassign") and self.kind(fn.get("cls", "?")) == "c":
            if fn.get("implicit") or not fn.get("body"):
                # right operand first
                r = e["args"][0]
                rp = self.lv(st, r)
                op = self.obj_ptr(st, e)
                self.assign(st, op, rp)
                return op
        if fn.get("lambda"):
            return self.call_closure(st, e, dst)
        obj = None
        if fn.get("method") and not fn.get("static"):
            obj = self.obj_ptr(st, e)
        if e.get("vcall") and obj is not None:
            f = self.devirt(st, obj, fn)
            if f is not None:
                vals = self.eval_args(st, fn, e["args"], e)
                return self.invoke_call(st, e, f, obj, vals, dst)
            if fn.get("repo"):
                return self.models.opaque_call(self, st, e, obj, dst)
        f = self.resolve(fn)
        if f is not None:
            vals = self.eval_args(st, fn, e["args"], e)
            if st.pc is FALSE:
                return None
            return self.invoke_call(st, e, f, obj, vals, dst)
        return self.models.call(self, st, e, name, obj, dst)

    def assign(self, st, op, rp):
        """object assignment through pointer diagrams"""
        def go(s, p):
            def go2(s2, q):
                self.copy_obj(s2, loc_of(q), loc_of(p))
            self.split(s, rp, go2)
        self.split(st, op, go)

    def invoke_call(self, st, e, f, obj, vals, dst):
        if self.opaque_hook and self.opaque_hook(self, st, e, f, obj, vals, dst):
            return self.models.opaque_call(self, st, e, obj, dst, vals=vals)
        if obj is not None and isinstance(obj, N):
            # keep 'this' as a diagram: member access handles it
            pass
        return self.invoke(st, f, obj, vals, dst, ("call", id(e)))

    def devirt(self, st, obj, fn):
        if isinstance(obj, N):
            return None
        t = self.load(st, loc_of(obj) + ("$type",), "s")
        if not isinstance(t, T) or t.op != "str":
            return None
        return self.find_override(t.args[0], fn)

    def find_override(self, cls, fn):
        """Definition that a virtual call to fn runs on dynamic class cls."""
        want = (strip_tpl(fn["qn"]).split("::")[-1], tuple(fn["pt"]))
        c = cls
        for _ in range(10):
            r = self.P.records.get(c)
            if r is None:
                return None
            for m in r["methods"]:
                if (strip_tpl(m["qn"]).split("::")[-1], tuple(m["pt"])) == want:
                    f = self.P.funcs.get(m.get("mg"))
                    if f is not None and f.qn not in self.opaque:
                        return f
                    for (tu, mg), g in self.P.internal.items():
                        if mg == m.get("mg") and g.qn not in self.opaque:
                            return g
            if not r["bases"]:
                return None
            c = r["bases"][0]
        return None

    def call_closure(self, st, e, dst):
        obj = self.lv(st, e["obj"]) if not e.get("arrow") else self.rv(st, e["obj"])
        fn = e["fn"]
        vals = self.eval_args(st, fn, e["args"], e)
        return self.call_closure_at(st, obj, vals, dst, e, fn)

    def call_closure_at(self, st, obj, vals, dst, node, fn=None):
        """Invoke the callable object(s) designated by pointer DD obj."""
        def go(s, p):
            if p.op == "fn":
                return self.call_fn_term(s, p, vals, dst, node)
            loc = loc_of(p)
            w = self.load(s, loc + ("$fn",), "p")
            return self.split(s, w, lambda s2, l: self.call_lam(s2, l, loc, vals, dst, node, fn))
        return self.split(st, obj, go)

    def call_fn_term(self, st, p, vals, dst, node):
        tu, fn = p.tag
        f = self.P.byid.get((tu, fn["id"])) or self.P.internal.get((tu, fn.get("mg"))) or self.P.funcs.get(fn.get("mg"))
        if f is None:
            return self.unk("function value", node)
        if f.qn in self.opaque or self.opaque_hook:
            syn = self.synth.get((id(node), fn.get("mg") or fn["qn"]))
            if syn is None:
                syn = {k: v for k, v in node.items() if k in ("l", "c", "f")}
                syn.update(k="call", fn=fn, t=f.d["ret"], args=[], src=node)
                self.synth[(id(node), fn.get("mg") or fn["qn"])] = syn
            if f.qn in self.opaque:
                return self.models.opaque_call(self, st, syn, None, dst, vals=vals)
            return self.invoke_call(st, syn, f, None, vals, dst)
        return self.invoke(st, f, None, vals, dst, ("call", id(node)))

    def call_lam(self, st, l, loc, vals, dst, node, fn=None):
        if l.op == "fn":
            return self.call_fn_term(st, l, vals, dst, node)
        if l.op != "lam":
            res = self.models.opaque_callable(self, st, l, loc, vals, dst, node)
            return res
        tu, cls = l.args
        n = self.P.lams.get((tu, cls))
        if n is None:
            return self.unk("lambda", node)
        if n.get("generic"):
            d = None
            for i in n.get("insts", ()):
                if fn is not None and i["id"] == fn["id"]:
                    d = i
            if d is None and n.get("insts"):
                d = n["insts"][0]
            if d is None:
                return self.unk("generic lambda", node)
        else:
            d = n["op"]
        f = F(tu, d)
        caps = {c["d"]: c["byref"] for c in n["caps"] if "d" in c}
        # private closure copy is unnecessary: captured values live at loc
        return self.invoke_closure(st, f, loc, caps, vals, dst, node)

    def invoke_closure(self, st, f, loc, caps, vals, dst, node):
        d = f.d
        if len(self.frames) > self.max_depth:
            return self.unk("recursion lambda")
        fr = Frame()
        # the file of a lambda is where it is written
        fr.f = f
        fr.tu = f.tu
        fr.key = self.key("fr", ("lam", id(node), f.key), self.frames[-1].key if self.frames else 0)
        fr.this = None
        fr.rets = []
        fr.retloc = dst
        fr.retkind = self.kind(d["ret"])
        fr.brk = []
        fr.cont = []
        fr.closure = loc
        fr.caps = caps
        self.frames.append(fr)
        try:
            for p, v in zip(d["params"], vals):
                root = ("v", p["d"], fr.key, p["n"])
                self.declare(root)
                k = self.kind(p["t"])
                if k == "c":
                    self.split(st, v, lambda s, q: self.copy_obj(s, loc_of(q), (root,)))
                else:
                    self.store(st, (root,), v, "p" if k == "r" else k)
            self.stmt(st, d["body"])
            if st.pc is not FALSE:
                fr.rets.append((st.clone(), None))
            rv = self.merge_rets(st, fr)
        finally:
            self.frames.pop()
        self.drop_frame(st, fr.key)
        return rv

    def call_value(self, st, e, v, dst):
        vals = [self.lv(st, a) if self.kind(a.get("t", "?")) == "c" else self.rv(st, a) for a in e["args"]]
        # pointer to function: parameter conventions from the value
        def go(s, p):
            if p.op == "fn":
                tu, fn = p.tag
                vs = self.eval_args(s, fn, e["args"], e)
                return self.call_fn_term(s, p, vs, dst, e)
            return self.unk("function pointer", e)
        return self.split(st, v, go)
