"""Syntax-directed effect analyses over the resolved program: who writes what, who can be reached from where."""
from .program import strip_tpl

SCALARS = {"bool", "char", "short", "int", "long", "long long", "float", "double", "long double"}
MUTATORS = {"std::" + n for n in (
    "sort stable_sort partial_sort nth_element reverse rotate shuffle fill fill_n generate generate_n iota copy copy_n copy_if copy_backward move_backward "
    "transform replace replace_if remove remove_if unique partition stable_partition swap_ranges push_heap pop_heap make_heap sort_heap merge inplace_merge "
    "next_permutation prev_permutation iter_swap swap getline exchange advance set_union set_intersection set_difference for_each").split()}
# non-const members of library classes that change nothing
PEEK = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "at", "front", "back", "data", "get", "find", "lower_bound", "upper_bound", "equal_range", "top",
        "operator*", "operator->", "value", "rdbuf", "c_str", "size", "empty", "good", "fail", "is_open", "first", "second"}
ASSOC = ("std::map<", "std::unordered_map<", "absl::flat_hash_map<", "absl::node_hash_map<", "absl::btree_map<")


def kids(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if k not in ("fn", "t", "ft"):
                if isinstance(v, (dict, list)):
                    yield v
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield v


def walk(n):
    """All nodes, including bodies of lambdas."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            # a lambda's call operator is a nested definition
            op = x.get("op")
            if x.get("k") == "lambda" and isinstance(op, dict):
                st.append(op.get("body"))
            st.extend(v for k, v in x.items() if k not in ("fn", "op") and isinstance(v, (dict, list)))
            if x.get("k") == "lambda":
                for i in x.get("insts", ()):
                    st.append(i)
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


def skip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "mat", "defarg") or isinstance(e, dict) and e.get("k") == "un" and e.get("op") in ("&", "*"):
        e = e["e"]
    return e


def qn(n):
    fn = n.get("fn")
    return strip_tpl(fn["qn"]) if fn else ""


def last(name):
    return name.rsplit("::", 1)[-1]


def is_const(t):
    t = (t or "").strip()
    while t.endswith(("&", " ")):
        t = t[:-1]
    if t.endswith("*const"):
        return True
    if t.endswith("*"):
        return False
    return t.startswith("const ")


def pointee_const(t):
    return (t or "").strip().startswith("const ")


def scalar(P, t):
    t = (t or "").replace("const ", "").replace("volatile ", "").strip()
    if t.replace("unsigned ", "").replace("signed ", "") in SCALARS or t.endswith("*"):
        return True
    return P.types.get(t, {}).get("k") == "e" or t in ("unsigned",)


class Decls:
    """Declarations inside one function definition, lambdas included."""

    def __init__(self, body):
        self.local = {}
        for n in walk(body):
            if n["k"] == "decl":
                for v in n["vs"]:
                    self.add(v)
            elif n["k"] == "rfor" and isinstance(n.get("var"), dict) and n["var"].get("k") != "decl":
                self.add(n["var"])
            elif n["k"] == "lambda":
                op = n.get("op")
                for o in ([op] if isinstance(op, dict) else []) + list(n.get("insts", ())):
                    for p in o.get("params", ()):
                        self.add(dict(p, parm=True))

    def add(self, v):
        if "d" in v:
            self.local[v["d"]] = v
        for b in v.get("binds", ()):
            self.add(b)


def root(e, D, depth=8):
    """What an lvalue (or pointer, iterator) expression is part of: ('local', d), ('parm', d), ('this', field), ('global', name), None."""
    e = skip(e)
    if not isinstance(e, dict) or depth == 0:
        return None
    k = e["k"]
    if k == "ref":
        v = D.local.get(e.get("d"))
        if v is not None and not v.get("static"):
            t = v.get("t", "")
            if v.get("parm"):
                return ("parm", e["d"])
            if t.endswith("&") or t.endswith("*"):
                i = v.get("init")
                return root(i, D, depth - 1) if i is not None else ("elem", e["d"])
            return ("local", e["d"])
        if v is not None and v.get("static"):
            return ("global", v.get("n"))
        if e.get("dk") == "parm":
            return ("parm", e["d"])
        if e.get("dk") in ("var", "binding"):
            return ("global", e.get("n")) if v is None and e.get("dk") == "var" else ("elem", e.get("d"))
        return None
    if k == "this":
        return ("this", None)
    if k == "mem":
        b = skip(e["b"])
        if isinstance(b, dict) and b.get("k") == "this":
            return ("this", e.get("f"))
        return root(e["b"], D, depth - 1)
    if k == "sub":
        return root(e["b"], D, depth - 1)
    if k == "call":
        o = e.get("obj")
        if o is not None:
            return root(o, D, depth - 1)
        if e["args"]:
            return root(e["args"][0], D, depth - 1)
        return None
    if k == "cond":
        a, b = root(e["a"], D, depth - 1), root(e["b"], D, depth - 1)
        return a if a == b else None
    if k in ("ctor", "init"):
        xs = e.get("args") or e.get("es") or ()
        return root(xs[0], D, depth - 1) if len(xs) == 1 else ("local", 0)
    return None


class Prog:
    def __init__(self, P):
        self.P = P
        self._sum = {}
        self.derived = {}
        for r in P.records.values():
            for m in r.get("methods", ()):
                for o in m.get("ov", ()):
                    self.derived.setdefault(o.get("mg"), set()).add(m.get("mg"))

    # ------------------------------------------------------------ call graph
    def targets(self, tu, n):
        """Repository functions a call or construction may run."""
        P, fn = self.P, n.get("fn")
        if not fn:
            return []
        out, todo, seen = [], [fn.get("mg")], set()
        f = P.byid.get((tu, fn.get("id")))
        if f is not None and (isinstance(f.d.get("body"), dict) or "inits" in f.d):
            out.append(f)
        while todo:
            mg = todo.pop()
            if mg is None or mg in seen:
                continue
            seen.add(mg)
            f = P.internal.get((tu, mg)) or P.funcs.get(mg)
            if f is not None and f not in out:
                out.append(f)
            if n.get("vcall") or mg != fn.get("mg"):
                todo += self.derived.get(mg, ())
        return out

    def reach(self, tu, nodes):
        """Repository functions reachable from the nodes."""
        seen, todo = {}, [(tu, nodes, None)]
        while todo:
            tu, ns, frm = todo.pop()
            for n in walk(ns):
                for f in self.targets(tu, n):
                    if f.key not in seen:
                        seen[f.key] = (f, frm)
                        todo.append((f.tu, [f.d.get("body"), f.d.get("inits", [])], f))
        return seen

    # --------------------------------------------------------------- effects
    def effects(self, tu, e, D, inner=()):
        """(node, root, what) for everything a subtree changes outside the variables declared in it."""
        own = Decls(e).local
        out = []

        def hit(n, r, what):
            if r and r[0] in ("local", "elem") and r[1] in own and (r[0] == "local"):
                return
            out.append((n, r, what))
        for n in walk(e):
            k = n["k"]
            if k == "bin" and n["op"] == "=":
                hit(n, root(n["a"], D), "assignment")
            elif k == "cassign":
                hit(n, root(n["a"], D), "assignment")
            elif k == "un" and n["op"] in ("++", "--"):
                hit(n, root(n["e"], D), n["op"])
            elif k in ("new", "delete"):
                if k == "delete":
                    hit(n, None, "delete")
            elif k == "other" and n.get("cls") == "CXXThrowExpr":
                hit(n, None, "throw")
            elif k in ("call", "ctor"):
                for x in self.call_effects(tu, n, D):
                    hit(*x)
        return out

    def call_effects(self, tu, n, D):
        fn = n.get("fn") or {}
        name = qn(n)
        ts = self.targets(tu, n)
        obj = n.get("obj")
        args = n["args"]
        if fn.get("lambda"):
            return []     # its body is part of the tree it is written in, or a callback given by the caller
        if ts:
            for f in ts:
                s = self.summary(f)
                for what in s:
                    kind = what[0]
                    if kind == "this":
                        if n["k"] == "ctor":
                            continue
                        yield n, root(obj, D) if obj is not None else None, "%s changes %s" % (last(f.qn), what[1])
                    elif kind == "parm":
                        i = what[1]
                        if i < len(args):
                            yield n, root(args[i], D), "%s changes its argument" % last(f.qn)
                    else:
                        yield n, what, "%s: %s" % (last(f.qn), what[1])
            return
        pts = fn.get("pt", [])
        base = last(name)
        if n["k"] == "call" and fn.get("method") and not fn.get("static") and not fn.get("const") and obj is not None:
            t = n.get("objt", "")
            if base in PEEK or base.startswith("operator ") or (base == "operator[]" and not t.replace("const ", "").startswith(ASSOC)):
                pass
            elif base in ("operator++", "operator--", "operator+=", "operator-=", "operator="):
                yield n, root(obj, D), base
            else:
                yield n, root(obj, D), "call of %s" % base
        if name in MUTATORS:
            yield n, root(args[0], D) if args else None, "call of %s" % name
            return
        if name in ("std::move", "std::forward", "std::addressof", "std::get", "std::begin", "std::end", "std::__addressof", "std::min", "std::max", "std::as_const",
                    "std::back_inserter", "std::make_pair", "std::tie", "std::ref", "__assert_fail", "__builtin_expect", "std::async", "std::bind"):
            return
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else ""
            if t.endswith("&&"):
                continue
            if (t.endswith("&") or t.endswith("*")) and not pointee_const(t):
                if n["k"] == "ctor" and not t.endswith("&"):
                    continue
                if base in ("operator*", "operator->", "operator[]", "operator==", "operator!=", "operator<", "operator-", "operator+"):
                    continue
                yield n, root(a, D), "argument of %s" % name

    def summary(self, f):
        """What a repository function changes: {('this', field), ('parm', i), ('global', name), ('other', what)}."""
        if f.key in self._sum:
            return self._sum[f.key]
        self._sum[f.key] = set()      # recursion: optimistic start
        D = Decls([f.d.get("body"), f.d.get("inits", [])])
        pidx = {p.get("d"): i for i, p in enumerate(f.d.get("params", []))}
        out = set()
        for n, r, what in self.effects(f.tu, [f.d.get("body")] + [i.get("e") for i in f.d.get("inits", [])], D):
            if r is None:
                out.add(("other", what))
            elif r[0] == "local":
                continue
            elif r[0] == "parm":
                if r[1] in pidx:
                    t = f.d["params"][pidx[r[1]]]["t"]
                    if t.endswith("&") or t.endswith("*"):
                        out.add(("parm", pidx[r[1]]))
                    elif "iterator" in t:
                        out.add(("parm", pidx[r[1]]))
                # a lambda's parameter: whoever calls it
            elif r[0] == "elem":
                out.add(("other", what))
            elif r[0] == "global" and r[1] and (r[1].startswith("std::") or r[1] in ("cout", "cerr")):
                out.add(("other", "output"))
            else:
                out.add(r)
        self._sum[f.key] = out
        return out
