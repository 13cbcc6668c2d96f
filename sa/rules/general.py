"""Properties of the whole program: determinism, independence of concurrent evaluations, assertions, exact timestamps."""
import difflib
import json
import re
from ..util import *
from ..runner import Anchor
from ..core import AnalysisLimit
from .. import interp, effects
from ..effects import walk as nodes, qn, root, skip, Decls, last, kids

# ---------------------------------------------------------------- shared
def prog(ctx, ndebug=True):
    key = "_eff%d" % ndebug
    if not hasattr(ctx, key):
        setattr(ctx, key, effects.Prog(ctx.P(ndebug)))
    return getattr(ctx, key)


def bodies(P):
    """Every function of the repository, flag boilerplate excepted."""
    for f in P.all:
        if f.qn.startswith("AbslFlag"):
            continue
        if isinstance(f.d.get("body"), dict) or f.d.get("inits"):
            yield f


def tree(f):
    return [f.d.get("body")] + [i.get("e") for i in f.d.get("inits", [])]


def at(f, n):
    return "%s:%s" % (f.d.get("file"), n.get("l") or f.d.get("line"))


# ---------------------------------------------------------------- G01: determinism
SOURCE = re.compile(
    r"^(std::)?(time|clock|rand|srand|random|srandom|drand48|erand48|lrand48|mrand48|rand_r|arc4random|getrandom|gettimeofday|clock_gettime|ftime|times|getpid|gettid|getppid|"
    r"getenv|secure_getenv|tmpnam|tempnam|gethostname|getcwd|pthread_self|sched_getcpu|getrusage|__rdtsc|__builtin_readcyclecounter|__builtin_ia32_rdtsc)$"
    r"|^std::chrono::.*::now$|^std::random_device\b|^std::this_thread::get_id$|^std::thread::(get_id|hardware_concurrency)$"
    r"|^absl::(Now|GetCurrentTimeNanos|GetFlagReflectionHandle)$|^absl::(Uniform|Gaussian|Bernoulli|Exponential|Poisson|Zipf|LogUniform|Beta)$"
    r"|^absl::.*(BitGen|NonsecureURBG|RandenPool)\w*\b")
HASHED = re.compile(r"^(const )?absl::((flat_hash|node_hash)_(map|set)|container_internal::raw_hash_(set|map))<")
KEYED = re.compile(r"^(const )?(std::(unordered_)?(multi)?(map|set)|absl::\w+_(map|set))<(.*)")
STREAMS = ("cout", "cerr", "clog", "cin", "stdout", "stderr", "std::cout", "std::cerr", "std::clog")


def first_targ(s):
    d = 0
    for i, c in enumerate(s):
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
            if d < 0:
                return s[:i]
        elif c == "," and d == 0:
            return s[:i]
    return s


def address_ordered(t):
    t = (t or "").strip().rstrip("&").strip()
    if HASHED.match(t):
        return "a container with a different order in each process"
    m = KEYED.match(t)
    if m and first_targ(m.group(5)).strip().rstrip("const").strip().endswith("*"):
        return "a container ordered by addresses"
    return None


def dep_on_call(init, D, own):
    """The variables of one particular call that an initialiser reads."""
    for n in nodes(init):
        if n["k"] == "this":
            return "this"
        if n["k"] == "ref" and n.get("dk") == "parm" and n.get("d") not in own:
            return n["n"]
        if n["k"] == "ref":
            v = D.local.get(n.get("d"))
            if v is not None and not v.get("static") and v.get("d") not in own:
                t = v.get("t", "")
                if v.get("parm") or not t.startswith("const ") or v.get("init") is None:
                    return v.get("n")
                r = dep_on_call(v["init"], D, own)
                if r:
                    return r
    return None


MESSAGE = re.compile(r"^(absl::(F?PrintF|StrFormat|StrCat|StrAppend\w*)|printf|fprintf|std::(printf|fprintf|puts|fputs))$")


class Taint:
    """Where a value that does not come from the inputs may go: through variables, results and arguments of repository
    functions, but only into messages."""

    def __init__(self, ctx, G):
        self.G, self.P = G, G.P
        self.memo = {}
        self.bad = []
        self.sites = 0

    def fn(self, f, params=frozenset()):
        """Whether the result depends on a source, given which parameters do."""
        key = (f.key, params)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        if len(self.memo) > 4000:
            raise AnalysisLimit("taint")
        D = Decls(tree(f))
        ps = [p.get("d") for p in f.d.get("params", [])]
        T = {ps[i] for i in params if i < len(ps)}
        par = {}
        todo = list(tree(f))
        allnodes = []
        for r in tree(f):
            link(r, None, par)
        allnodes = [n for n in nodes(tree(f))]
        ret = False
        bad = []
        for _ in range(12):
            size = len(T), ret
            bad = []
            for n in allnodes:
                why = None
                if n["k"] in ("call", "ctor"):
                    if SOURCE.search(qn(n)):
                        why = qn(n)
                        self.sites += 1
                    elif any(self.fn(g) for g in self.G.targets(f.tu, n)):
                        why = qn(n)
                elif n["k"] == "ref" and n.get("d") in T:
                    why = n.get("n")
                elif n["k"] == "cast" and n.get("ck") == "PointerToIntegral":
                    why = "an address"
                if why:
                    r = self.climb(f, n, par, T, D, bad, why)
                    ret = ret or r
            if (len(T), ret) == size:
                break
        self.bad += [(f,) + x for x in bad]
        self.memo[key] = ret
        return ret

    def climb(self, f, n, par, T, D, bad, why):
        """Follow one tainted value to where it is used; True if it is returned."""
        x = n
        while True:
            up = par.get(id(x))
            if up is None:
                return False
            y, slot = up
            if not isinstance(y, dict) or "k" not in y:
                if isinstance(y, dict) and "d" in y and slot == "init":
                    if y.get("static"):
                        bad.append((n, "%s is kept in static %s" % (why, y.get("n"))))
                    T.add(y["d"])
                    return False
                if isinstance(y, dict) and "f" in y and slot == "e":
                    bad.append((n, "%s is stored in %s" % (why, y.get("f"))))
                    return False
                x = y
                continue
            k = y["k"]
            if k == "return":
                return self.infn(f, y, par)
            if k in ("expr", "block"):
                return False
            if k in ("if", "while", "for", "do", "switch", "cond") and slot in ("c",):
                if k == "if" and only_messages(self.G, f, y, D):
                    return False
                bad.append((n, "a decision depends on %s" % why))
                return False
            if k == "bin" and y["op"] == "=" or k == "cassign":
                if slot == "a":
                    return False
                r = root(y["a"], D)
                if r and r[0] in ("local",):
                    T.add(r[1])
                    if k == "cassign" or True:
                        return False
                if r and r[0] == "parm" and not f_ref(f, r[1]):
                    T.add(r[1])
                    return False
                bad.append((n, "%s is stored" % why))
                return False
            if k in ("call", "ctor"):
                q = qn(y)
                if q in ("absl::PrintF", "absl::FPrintF", "printf", "fprintf", "std::printf", "std::fprintf"):
                    return False
                if k == "call" and last(q) == "operator<<":
                    r = root(y["args"][0] if y.get("args") else y.get("obj"), D)
                    if r and r[0] == "global" and r[1] and last(r[1]) in STREAMS:
                        return False
                ts = self.G.targets(f.tu, y)
                if ts and isinstance(slot, tuple):
                    i = slot[1]
                    res = [self.fn(g, frozenset([i])) for g in ts]
                    if not any(res):
                        return False
                elif isinstance(slot, tuple) or slot == "obj":
                    ch = [e for e in self.G.call_effects(f.tu, y, D)]
                    for c, r, what in ch:
                        if r and r[0] == "local":
                            T.add(r[1])
                        elif r is None or r[0] != "local":
                            if not (r and r[0] == "global" and r[1] and last(r[1]) in STREAMS):
                                bad.append((n, "%s reaches %s" % (why, q or "a call")))
                                return False
                x = y
                continue
            if k == "lambda":
                return False
            x = y

    def infn(self, f, n, par):
        """Whether a return statement is the function's own (not a lambda's)."""
        x = n
        while True:
            up = par.get(id(x))
            if up is None:
                return True
            if isinstance(up[0], dict) and up[0].get("k") == "lambda":
                return False
            x = up[0]


def f_ref(f, d):
    for p in f.d.get("params", []):
        if p.get("d") == d:
            return p["t"].rstrip().endswith(("&", "*"))
    return True


def link(n, p, par):
    """Parents: node -> (parent, slot); arguments have slot ('arg', index)."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "fn":
                    continue
                if isinstance(v, dict):
                    par[id(v)] = (x, k)
                    st.append(v)
                elif isinstance(v, list):
                    for i, w in enumerate(v):
                        if isinstance(w, dict):
                            par[id(w)] = (x, ("arg", i) if k == "args" else k)
                            st.append(w)


def only_messages(G, f, s, D):
    """A conditional that guards nothing but messages."""
    for part in (s.get("a"), s.get("b")):
        if part is None:
            continue
        if any(x["k"] in ("return", "break", "continue") for x in nodes(part)):
            return False
        for x in nodes(part):
            if x["k"] == "call":
                q = qn(x)
                if MESSAGE.match(q) or x["t"] != "void" and not list(G.call_effects(f.tu, x, D)):
                    continue
                ts = G.targets(f.tu, x)
                if ts and all(all(w[0] == "other" or w[0] == "global" and last(w[1] or "") in STREAMS for w in G.summary(g)) for g in ts):
                    continue
                if list(G.call_effects(f.tu, x, D)):
                    return False
            elif x["k"] == "cassign" or x["k"] == "bin" and x["op"] == "=" or x["k"] == "un" and x["op"] in ("++", "--"):
                return False
    return True


def g01(ctx):
    R = "sources"
    ctx.rule(R, "the time of day, random numbers, the environment, process and thread numbers and addresses reach nothing but messages: no decision, result, object or "
                "argument of another kind depends on them")
    P = ctx.P()
    G = prog(ctx)
    T = Taint(ctx, G)
    for f in bodies(P):
        T.bad = []
        T.fn(f)
        seen = [x for x in T.bad if x[0] is f] or T.bad
        bad = (seen[0][0], seen[0][1], seen[0][2]) if seen else None
        order = None
        for n in nodes(tree(f)):
            if n["k"] == "rfor":
                rg = n.get("range")
                for x in ([rg] + list(nodes(rg)) if isinstance(rg, dict) else []):
                    order = order or (address_ordered(x.get("t")) and (f, n, "the order of %s is used" % address_ordered(x.get("t"))))
            if n["k"] == "call" and last(qn(n)) in ("begin", "cbegin") and address_ordered(n.get("objt")):
                order = order or (f, n, "the order of %s is used" % address_ordered(n.get("objt")))
        bad = bad or order
        ctx.check(R, f.qn + sig(f), at(bad[0], bad[1]) if bad else f.where, bad is None, bad[2] if bad else "")
    for tu, v in P.vars:
        if any(SOURCE.search(qn(n)) for n in nodes(v.get("init") or {}) if n["k"] in ("call", "ctor")):
            ctx.bad(R, v["n"], "%s:%s" % (v["file"], v["line"]), "initialised from a source other than the inputs")

    R = "memory"
    ctx.rule(R, "no function changes a variable that outlives the objects it is given, and no static variable is initialised from what one particular call was given")
    for f in bodies(P):
        D = Decls(tree(f))
        bad = None
        for n, r, what in G.effects(f.tu, tree(f), D):
            if r and r[0] == "global" and r[1] and last(r[1]) not in STREAMS:
                bad = (n, "%s of %s, which later calls see" % (what, r[1]))
        for n in nodes(tree(f)):
            if n["k"] == "decl":
                for v in n["vs"]:
                    if v.get("static") and v.get("init") is not None:
                        d = dep_on_call(v["init"], D, Decls(v["init"]).local)
                        if d:
                            bad = (n, "static %s keeps the value it got from '%s' of the first call" % (v.get("n"), d))
        ctx.check(R, f.qn + sig(f), at(f, bad[0]) if bad else f.where, bad is None, bad[1] if bad else "")

    R = "initialised"
    ctx.rule(R, "every number, flag, enumeration and pointer in an object is given a value by each of its constructors, and no variable is read before it has one")
    uninit_fields(ctx, R, P, G)
    uninit_locals(ctx, R, P)


def sig(f):
    same = len(f.d.get("params", []))
    return "/%d" % same


def uninit_fields(ctx, R, P, G):
    for name, r in sorted(P.records.items()):
        if name.startswith("AbslFlag"):
            continue
        fs = [x for x in r["fields"] if effects.scalar(P, x["t"]) and x.get("init") is None]
        ctors = [f for f in P.byqn.get(name + "::" + last(name), []) if f.d.get("ck") in (None, "other", "default") and ("inits" in f.d or isinstance(f.d.get("body"), dict))]
        ctors = [f for f in ctors if f.d.get("cls") == name]
        user = [m for m in r.get("methods", ()) if m.get("ck") in ("other", "default") and last(effects.strip_tpl(m["qn"])) == last(name)]
        inst = "%s" % name
        where = "%s:%s" % (r["file"], r["line"])
        if not fs:
            ctx.ok(R, inst, where)
            continue
        for c in ctors:
            got = {i["f"] for i in c.d.get("inits", []) if i.get("f") and i.get("e") is not None}
            if any(i.get("delegating") or i.get("base") == name for i in c.d.get("inits", [])):
                continue
            D = Decls(tree(c))
            for n, rt, what in G.effects(c.tu, c.d.get("body"), D):
                if rt and rt[0] == "this":
                    got.add(rt[1])
            miss = [x["n"] for x in fs if x["n"] not in got and None not in got]
            ctx.check(R, "%s constructor with %d parameters" % (inst, len(c.d.get("params", []))), c.where, not miss, "%s has no value after construction" % ", ".join(miss))
        if not ctors and not user:
            # an aggregate: each place that creates one gives it values
            bad = None
            for f in bodies(P):
                for n in nodes(tree(f)):
                    if n["k"] == "decl":
                        for v in n["vs"]:
                            if v.get("t", "").replace("const ", "") == name and (v.get("init") is None or v["init"].get("k") == "ctor" and not v["init"].get("args") and not v["init"].get("zero")):
                                bad = (f, n)
            if bad:
                ctx.undec(R, inst, at(*bad), "an object with members without a value is created")
            else:
                ctx.ok(R, inst, where)


class Assigned:
    """Forward analysis of one function: for each local scalar without initialiser, whether it may and whether it must have
    a value where it is read."""

    def __init__(self, P, f):
        self.P = P
        self.vars = {}
        self.reads = []     # (var, node, may, must)
        for n in nodes(tree(f)):
            if n["k"] == "decl":
                for v in n["vs"]:
                    if v.get("init") is None and not v.get("static") and "d" in v and effects.scalar(P, v.get("t")):
                        self.vars[v["d"]] = v
        self.caught = set()
        if self.vars:
            may, must = set(), set()
            self.stmt(f.d.get("body"), [may, must])

    def rd(self, d, n, S):
        if d in self.vars:
            self.reads.append((self.vars[d], n, d in S[0], d in S[1]))

    def wr(self, d, S):
        if d in self.vars:
            S[0].add(d)
            S[1].add(d)

    def join(self, A, B):
        """B may be None: unreachable."""
        if A is None or B is None:
            return A or B
        return [A[0] | B[0], A[1] & B[1]]

    def expr(self, e, S):
        if S is None or e is None:
            return S
        if isinstance(e, list):
            for x in e:
                S = self.expr(x, S)
            return S
        if not isinstance(e, dict):
            return S
        k = e.get("k")
        if k == "cast" and e.get("ck") == "LValueToRValue" and isinstance(e["e"], dict) and e["e"].get("k") == "ref":
            self.rd(e["e"].get("d"), e, S)
            return S
        if k == "ref":
            self.wr(e.get("d"), S)      # an lvalue: passed on, assigned or its address taken
            return S
        if k == "bin" and e["op"] in ("&&", "||"):
            S = self.expr(e["a"], S)
            T2 = self.expr(e["b"], [set(S[0]), set(S[1])])
            return [S[0] | T2[0], S[1] & T2[1]]
        if k == "cond":
            S = self.expr(e["c"], S)
            A = self.expr(e["a"], [set(S[0]), set(S[1])])
            B = self.expr(e["b"], [set(S[0]), set(S[1])])
            return self.join(A, B)
        if k == "bin" and e["op"] == "=":
            S = self.expr(e["b"], S)
            return self.expr(e["a"], S)
        if k == "cassign" or k == "un" and e.get("op") in ("++", "--"):
            t = skip(e.get("a") or e.get("e"))
            S = self.expr(e.get("b"), S)
            if isinstance(t, dict) and t.get("k") == "ref":
                # what had no value before has none after
                self.rd(t.get("d"), e, S)
                return S
            return self.expr(e.get("a") or e.get("e"), S)
        if k == "lambda":
            for c in e.get("caps", ()):
                i = c.get("init")
                if c.get("byref") and isinstance(i, dict) and i.get("k") == "ref":
                    self.wr(i.get("d"), S)
                else:
                    S = self.expr(i, S)
            return S
        for x in kids(e):
            S = self.expr(x, S)
        return S

    def stmt(self, s, S):
        """State after normal completion, or None."""
        if S is None or s is None:
            return S
        k = s.get("k")
        if k == "block":
            for x in s["ss"]:
                S = self.stmt(x, S)
            return S
        if k == "decl":
            for v in s["vs"]:
                if v.get("d") in self.vars:
                    S[0].discard(v["d"])
                    S[1].discard(v["d"])
                elif v.get("init") is not None:
                    S = self.expr(v["init"], S)
            return S
        if k == "if":
            if s.get("init"):
                S = self.stmt(s["init"], S)
            if s.get("cv"):
                S = self.expr(s["cv"].get("init"), S)
            S = self.expr(s["c"], S)
            A = self.stmt(s["a"], [set(S[0]), set(S[1])])
            B = self.stmt(s["b"], [set(S[0]), set(S[1])]) if s.get("b") else S
            return self.join(A, B)
        if k in ("while", "for", "rfor", "do"):
            for x in ("init", "begin", "end"):
                if s.get(x):
                    S = self.stmt(s[x], S) if s[x].get("k") in ("decl", "expr", "block") else self.expr(s[x], S)
            if k == "rfor":
                S = self.expr(s.get("range") if not isinstance(s.get("range"), dict) or s["range"].get("k") != "decl" else None, S)
            # values given anywhere in the loop may be there on its next pass
            may = set(S[0])
            probe = Assigned.__new__(Assigned)
            probe.P, probe.vars, probe.reads, probe.brk = self.P, self.vars, [], []
            X = [set(S[0]), set(S[1])]
            pr = probe.loop(s, X)
            for st in [pr] + probe.brk:
                if st:
                    may |= st[0]
            saved, self.brk = getattr(self, "brk", None), []
            out = self.loop(s, [may, set(S[1])])
            for b in self.brk:
                out = self.join(out, b)
            self.brk = saved
            return out
        if k == "switch":
            S = self.expr(s.get("c"), S)
            saved, self.brk = getattr(self, "brk", None), []
            out, cur, dflt = None, None, False
            body = s["body"]["ss"] if isinstance(s["body"], dict) and s["body"].get("k") == "block" else [s["body"]]
            for x in body:
                while isinstance(x, dict) and x.get("k") in ("case", "default"):
                    dflt = dflt or x["k"] == "default"
                    cur = self.join(cur, [set(S[0]), set(S[1])])
                    x = x.get("s")
                cur = self.stmt(x, cur)
            out = cur
            for b in self.brk:
                out = self.join(out, b)
            if not dflt:
                # every enumerator may be covered; what the cases give may be there
                e = [set(S[0]), set(S[1])]
                if out:
                    e[0] |= out[0]
                out = self.join(out, e)
            self.brk = saved
            return out
        if k == "return":
            self.expr(s.get("e"), S)
            return None
        if k in ("break", "continue"):
            if getattr(self, "brk", None) is not None:
                self.brk.append([set(S[0]), set(S[1])])
            return None
        if k == "expr":
            e = s["e"]
            S = self.expr(e, S)
            if isinstance(e, dict) and e.get("k") == "call" and last(qn(e)) in ("exit", "abort", "_exit", "terminate"):
                return None
            return S
        for x in kids(s):
            if isinstance(x, dict) and x.get("k") in ("block", "decl", "if", "while", "for", "rfor", "do", "switch", "return", "expr"):
                S = self.stmt(x, S)
            else:
                S = self.expr(x, S)
        return S

    def loop(self, s, S):
        if s["k"] == "do":
            S = self.stmt(s.get("body"), S)
            return self.expr(s.get("c"), S)
        if s.get("c") is not None:
            S = self.expr(s["c"], S)
        after = [set(S[0]), set(S[1])]
        v = s.get("var")
        if isinstance(v, dict) and v.get("k") == "decl":
            S = self.stmt(v, S)
        B = self.stmt(s.get("body"), S)
        if B is not None and s.get("inc") is not None:
            self.expr(s["inc"], B)
        if B is not None:
            after[0] |= B[0]
        return after


def uninit_locals(ctx, R, P):
    for f in bodies(P):
        a = Assigned(P, f)
        if not a.vars:
            ctx.ok(R, f.qn + sig(f), f.where)
            continue
        bad = [(v, n) for v, n, may, must in a.reads if not may]
        if bad:
            ctx.bad(R, f.qn + sig(f), at(f, bad[0][1]), "%s is read before it has a value" % bad[0][0].get("n"))
            continue
        und = [(v, n) for v, n, may, must in a.reads if not must]
        if not und:
            ctx.ok(R, f.qn + sig(f), f.where)
            continue
        # decided by the conditions under which it is given a value and read
        w = flows_uninit(ctx, f)
        if w is None:
            ctx.undec(R, f.qn + sig(f), at(f, und[0][1]), "%s may be read before it has a value" % und[0][0].get("n"))
        else:
            ctx.check(R, f.qn + sig(f), at(f, und[0][1]), not w, "%s is read without a value when %s" % (und[0][0].get("n"), w))


def flows_uninit(ctx, f):
    """Whether an unset local reaches a result, a call, a branch or the memory of others; None if not decided."""
    try:
        I, st, v, rl = run(ctx, f, n=200000)
    except Exception:
        return None
    if gaps(I):
        return None
    vague = lambda t: t.op in ("mu", "kappa", "unk", "ev")
    isu = lambda t: t.op == "uninit"

    def hit(d, pc):
        if not isinstance(d, (T, N)):
            return None
        for lits, x in cubes_of(dd_and(pc, TRUE) if d is pc else pair(pc, d), 2000):
            if d is not pc:
                if x.args[0] is not TRUE:
                    continue
                x = x.args[1]
            us = [t for t in term_subterms(x) if isu(t)] + [t for l, p in lits for t in term_subterms(l) if isu(t)]
            if us:
                if any(vague(t) for t in term_subterms(x)) or any(vague(t) for l, p in lits for t in term_subterms(l)):
                    return "?"
                return showdd(pc, 2)
        return None
    found = []
    if isinstance(v, (T, N)):
        found.append(hit(v, TRUE))
    for loc, x in st.mem.items():
        if loc[0][0] in ("P", "ret", "G", "D"):
            found.append(hit(x, TRUE))
    for e, s, pos in walk(I.ev):
        found.append(hit(e.pc, e.pc))
        for a in e.args or ():
            found.append(hit(a, e.pc))
    if "?" in found:
        return None
    w = [x for x in found if x]
    return short(w[0], 120) if w else ""


# ---------------------------------------------------------------- G02: concurrent evaluations
LAUNCH = ("std::async", "std::thread::thread", "std::jthread::jthread", "std::packaged_task::packaged_task")
UNSAFE = re.compile(r"^(std::)?(strtok|localtime|gmtime|asctime|ctime|setlocale|strerror|rand|srand|random|getpwnam|setenv|putenv|readdir|tmpnam)$")
LOCK = re.compile(r"(lock_guard|unique_lock|scoped_lock|shared_lock|MutexLock|ReaderMutexLock|WriterMutexLock)")


def tasks(ctx, P):
    """(function, launch node, task lambda or None)."""
    for f in bodies(P):
        for n in nodes(tree(f)):
            if n["k"] in ("call", "ctor") and qn(n) in LAUNCH:
                lam = [x for a in n["args"] for x in nodes(a) if x["k"] == "lambda"]
                if not lam:
                    # a local variable holding the task
                    D = Decls(tree(f))
                    for a in n["args"]:
                        for x in nodes(a):
                            v = D.local.get(x.get("d")) if x["k"] == "ref" else None
                            if v and v.get("init") is not None:
                                lam += [y for y in nodes(v["init"]) if y["k"] == "lambda"]
                yield f, n, lam


def enclosing_loops(f, target):
    out = []

    def go(n, stack):
        if n is target:
            out.extend(stack)
            return True
        if isinstance(n, dict):
            s2 = stack + [n] if n.get("k") in ("for", "rfor", "while", "do") else stack
            for k, v in n.items():
                if k != "fn" and isinstance(v, (dict, list)) and go(v, s2):
                    return True
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)) and go(v, stack):
                    return True
        return False
    go(tree(f), [])
    return out


def g02(ctx):
    R = "shared"
    ctx.rule(R, "what the concurrently running evaluations are given by reference is constant or their own, and outlives them")
    P = ctx.P()
    G = prog(ctx)
    ts = list(tasks(ctx, P))
    ctx.note("launch sites: %d" % len(ts)) if hasattr(ctx, "note") else None
    starts = []
    for f, n, lams in ts:
        D = Decls(tree(f))
        loops = enclosing_loops(f, n)
        inner = {}
        for l in loops:
            inner.update(Decls(l).local)
        inst = "%s task" % f.qn
        if len(lams) != 1:
            starts.append((f, [n]))
            fns = [x for a in n["args"] for x in nodes(a) if x["k"] == "fnref"]
            if lams or len(fns) != 1:
                ctx.undec(R, inst, at(f, n), "the task is not a lambda")
                continue
            # a function bound to its arguments: what it is given by reference
            outer = G.effects(f.tu, tree(f), D)
            inn = set(map(id, nodes(n)))
            for a in n["args"]:
                if any(x["k"] == "fnref" for x in nodes(a)):
                    continue
                by = any(x["k"] == "call" and last(qn(x)) in ("ref", "cref") or x["k"] == "un" and x.get("op") == "&" for x in nodes(a))
                rs = [x for x in nodes(a) if x["k"] == "ref" and x.get("d") is not None]
                t = a.get("t", "")
                if not by and not t.rstrip().endswith("*"):
                    ctx.ok(R, inst + "/value", at(f, n))
                    continue
                for x in rs:
                    ci, d = "%s/%s" % (inst, x.get("n")), x.get("d")
                    vt = (D.local.get(d) or x).get("t", "")
                    mine = [e for e in outer if id(e[0]) not in inn and e[1] in (("local", d), ("parm", d))
                            and ((e[0].get("l") or 0) > (n.get("l") or 0) or any(y is e[0] for l in loops for y in nodes(l)))]
                    if d in inner and by and not vt.rstrip().endswith("&"):
                        ctx.undec(R, ci, at(f, n), "the task is given a reference to a local of the loop")
                    elif pointee_ok(vt if vt.rstrip().endswith(("&", "*")) else x.get("t", "")) and not mine:
                        ctx.ok(R, ci, at(f, n))
                    else:
                        ctx.undec(R, ci, at(f, n), "the task is given a reference to what may change")
            continue
        lam = lams[0]
        body = lam["op"].get("body") if isinstance(lam.get("op"), dict) else None
        starts.append((f, [lam]))
        locked = any(LOCK.search(qn(x)) for x in nodes(body or {}) if x["k"] == "ctor")
        eff = G.effects(f.tu, body or {}, D) if body else []
        outer = [(x, r, w) for x, r, w in G.effects(f.tu, tree(f), D)]
        inlam = set(map(id, nodes(lam)))
        for c in lam.get("caps", ()):
            if c.get("this"):
                cls = (c.get("init") or {}).get("t", "")
                wr = [e for e in eff if e[1] and e[1][0] == "this"]
                if wr and not locked:
                    ctx.bad(R, inst + "/this", at(f, wr[0][0]), "concurrent tasks change the same object: %s" % wr[0][2])
                elif wr:
                    ctx.undec(R, inst + "/this", at(f, wr[0][0]), "changes under a lock")
                else:
                    ctx.ok(R, inst + "/this", at(f, lam))
                continue
            v = D.local.get(c.get("d"))
            i = c.get("init") or {}
            t = (v or i).get("t", "") if not c.get("initcap") else i.get("t", "")
            ci = "%s/%s" % (inst, c.get("n"))
            shared = c.get("byref") or t.rstrip().endswith("*")
            if not shared:
                ctx.ok(R, ci, at(f, lam))
                continue
            isref = t.rstrip().endswith(("&", "*"))
            own = c.get("d") in inner
            # a local of one pass of the loop, captured by reference, is gone before the task ends
            if c.get("byref") and own and not t.rstrip().endswith("&") and loops:
                waits = any(x["k"] == "call" and last(qn(x)) in ("get", "wait", "join") and re.search("future|thread", x.get("objt") or "") for x in nodes(loops[-1].get("body")))
                if waits:
                    ctx.undec(R, ci, at(f, lam), "waited for in the loop")
                else:
                    ctx.bad(R, ci, at(f, lam), "the task keeps a reference to %s, which ends with the pass of the loop" % c.get("n"))
                continue
            d = c.get("d")
            rt = root({"k": "ref", "d": d, "n": c.get("n"), "dk": i.get("dk", "var")}, D)
            wr = [e for e in eff if e[1] in (("local", d), ("parm", d), rt) or e[1] is not None and e[1][0] == "elem" and e[1][1] == d]
            mine = [e for e in outer if id(e[0]) not in inlam and e[1] in (("local", d), ("parm", d))
                    and ((e[0].get("l") or 0) > (n.get("l") or 0) or any(x is e[0] for l in loops for x in nodes(l)))]
            if pointee_ok(t) and not mine:
                ctx.ok(R, ci, at(f, lam))
            elif wr and own and isref:
                ctx.undec(R, ci, at(f, wr[0][0]), "each task changes what it was given")
            elif wr and locked:
                ctx.undec(R, ci, at(f, wr[0][0]), "changes under a lock")
            elif wr:
                subs = [x for x in nodes(body) if x["k"] in ("sub",) or x["k"] == "call" and last(qn(x)) in ("operator[]", "at")]
                if subs and all(any(y is wr[0][0] or y in list(nodes(wr[0][0])) for y in [x]) for x in subs[:1]):
                    ctx.undec(R, ci, at(f, wr[0][0]), "each task changes an element")
                else:
                    ctx.bad(R, ci, at(f, wr[0][0]), "concurrent tasks change %s: %s" % (c.get("n"), wr[0][2]))
            elif mine and c.get("byref") and not isref:
                ctx.bad(R, ci, at(f, mine[0][0]), "%s is changed while tasks read it" % c.get("n"))
            else:
                ctx.ok(R, ci, at(f, lam))

    R = "reachable"
    ctx.rule(R, "no function a concurrently running evaluation can reach changes a variable outside the objects it is given, changes an object it only reads (mutable members, casts), "
                "or calls a library function that is not safe to call concurrently")
    seen = {}
    for f, ns in starts:
        for k, (g, frm) in G.reach(f.tu, ns).items():
            seen.setdefault(k, g)
    if not ts:
        ctx.ok(R, "no concurrent tasks", "")
    mut = {(r["n"], x["n"]): x["t"] for r in P.records.values() for x in r["fields"] if x.get("mutable")}
    for g in sorted(seen.values(), key=lambda g: (g.qn, g.where)):
        D = Decls(tree(g))
        bad = und = None
        locked = any(LOCK.search(qn(x)) for x in nodes(tree(g)) if x["k"] == "ctor")
        for n, r, what in G.effects(g.tu, tree(g), D):
            if r and r[0] == "global" and r[1] and last(r[1]) not in STREAMS:
                if locked:
                    und = (n, "%s of %s under a lock" % (what, r[1]))
                else:
                    bad = (n, "%s of %s, which all evaluations share" % (what, r[1]))
            if r and r[0] == "this" and g.d.get("const"):
                ft = mut.get((g.d.get("cls"), r[1]), "")
                if locked or "atomic" in ft:
                    und = (n, "%s of the shared object under a lock" % what)
                elif r[1] is None or (g.d.get("cls"), r[1]) in mut:
                    bad = (n, "%s: an object that is shared as constant changes" % what)
                else:
                    und = (n, "%s through member %s" % (what, r[1]))
        for n in nodes(tree(g)):
            if n["k"] == "call" and UNSAFE.match(qn(n)):
                bad = (n, "%s is not safe to call concurrently" % qn(n))
            if n["k"] == "cast" and n.get("x") and casts_const(n):
                und = und or (n, "a cast removes const")
        if bad:
            ctx.bad(R, g.qn + sig(g), at(g, bad[0]), bad[1])
        elif und:
            ctx.undec(R, g.qn + sig(g), at(g, und[0]), und[1])
        else:
            ctx.ok(R, g.qn + sig(g), g.where)


def pointee_ok(t):
    return (t or "").strip().startswith("const ")


def casts_const(n):
    ft, t = n.get("ft", ""), n.get("t", "")
    a, b = ft.replace("const ", ""), t.replace("const ", "")
    return t.rstrip().endswith(("*", "&")) and a.rstrip(" &*") == b.rstrip(" &*") and ft.startswith("const ") and not t.startswith("const ")


# ---------------------------------------------------------------- G03: assertions
def asserts_of(f):
    for n in nodes(tree(f)):
        if n["k"] == "cond" and any(y["k"] == "call" and qn(y) == "__assert_fail" for y in nodes(n["b"])):
            yield n


def is_assert(s):
    """The statement an assertion expands to, in either build."""
    e = s.get("e") if s.get("k") == "expr" else s
    while isinstance(e, dict) and e.get("k") == "cast" and e.get("ck") != "ToVoid":
        e = e["e"]
    if isinstance(e, dict) and e.get("k") == "cond" and any(y["k"] == "call" and qn(y) == "__assert_fail" for y in nodes(e["b"])):
        return True
    return isinstance(e, dict) and e.get("k") == "cast" and e.get("ck") == "ToVoid" and skip(e["e"]).get("k") == "int"


DROP = ("l", "d", "id", "el", "eline", "line", "cls", "mg", "file")


def canon(x):
    if isinstance(x, dict):
        if x.get("k") == "block":
            return {"k": "block", "ss": [canon(s) for s in x["ss"] if not is_assert(s)]}
        if x.get("k") == "expr" and is_assert(x):
            return {"k": "block", "ss": []}
        return {k: canon(v) for k, v in x.items() if k not in DROP and not (k == "lambda" and isinstance(v, int))}
    if isinstance(x, list):
        return [canon(s) for s in x]
    return x


def blocks(n):
    """Statement lists of a function with the nesting they are found at."""
    for x in nodes(n):
        if x["k"] == "block":
            yield x


def g03(ctx):
    R = "assertions"
    ctx.rule(R, "evaluating the condition of an assertion changes nothing")
    P = ctx.P(False)
    G = prog(ctx, False)
    total = 0
    for f in bodies(P):
        D = Decls(tree(f))
        for k, n in enumerate(asserts_of(f)):
            total += 1
            eff = G.effects(f.tu, n["c"], D)
            eff = [x for x in eff if not (x[1] and x[1][0] == "global" and x[1][1] and last(x[1][1]) in STREAMS)]
            ctx.check(R, "%s%s#%d" % (f.qn, sig(f), k + 1), at(f, n), not eff, "the assertion changes something: %s" % (eff[0][2] if eff else ""))
    R = "builds"
    ctx.rule(R, "with assertions disabled the program consists of the same statements, up to statements without effect")
    Q = ctx.P(True)
    other = {(f.d.get("file"), f.d.get("mg")): f for f in bodies(Q)}
    for f in bodies(P):
        g = other.get((f.d.get("file"), f.d.get("mg")))
        if g is None:
            ctx.undec(R, f.qn + sig(f), f.where, "only in builds with assertions")
            continue
        if json.dumps(canon(tree(f)), sort_keys=True) == json.dumps(canon(tree(g)), sort_keys=True):
            ctx.ok(R, f.qn + sig(f), f.where)
            continue
        bad = []
        match(ctx, f, G, tree(f), g, prog(ctx, True), tree(g), bad)
        if bad:
            ctx.bad(R, f.qn + sig(f), bad[0][0], bad[0][1])
        else:
            ctx.ok(R, f.qn + sig(f), f.where)


def match(ctx, f, G, a, g, H, b, bad):
    """Find the statements that only one of the builds has."""
    if isinstance(a, list) and isinstance(b, list):
        A = [s for s in a if not (isinstance(s, dict) and is_assert(s))]
        B = [s for s in b if not (isinstance(s, dict) and is_assert(s))]
        ka = [json.dumps(canon(s), sort_keys=True) for s in A]
        kb = [json.dumps(canon(s), sort_keys=True) for s in B]
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ka, kb, autojunk=False).get_opcodes():
            if tag == "equal":
                continue
            if tag == "replace" and i2 - i1 == j2 - j1 and all(isinstance(A[i1 + k], dict) and isinstance(B[j1 + k], dict) and A[i1 + k].get("k") == B[j1 + k].get("k")
                                                                for k in range(i2 - i1)):
                for k in range(i2 - i1):
                    match(ctx, f, G, A[i1 + k], g, H, B[j1 + k], bad)
                continue
            for s in A[i1:i2]:
                only(f, G, s, bad, "with")
            for s in B[j1:j2]:
                only(g, H, s, bad, "without")
        return
    if isinstance(a, dict) and isinstance(b, dict) and a.get("k") == b.get("k"):
        keys = [k for k in a if k not in DROP]
        if set(keys) == {k for k in b if k not in DROP}:
            for k in keys:
                if json.dumps(canon(a[k]), sort_keys=True) != json.dumps(canon(b[k]), sort_keys=True):
                    if isinstance(a[k], (dict, list)) and type(a[k]) is type(b[k]):
                        match(ctx, f, G, a[k], g, H, b[k], bad)
                    else:
                        bad.append((at(f, a), "differs when assertions are disabled"))
            return
    if isinstance(a, dict) and is_assert(a) and isinstance(b, dict):
        return only(g, H, b, bad, "without")
    if isinstance(b, dict) and is_assert(b) and isinstance(a, dict):
        return only(f, G, a, bad, "with")
    bad.append((at(f, a if isinstance(a, dict) else {}), "differs when assertions are disabled"))


def only(f, G, s, bad, which):
    D = Decls(tree(f))
    if not isinstance(s, dict):
        bad.append((f.where, "differs when assertions are disabled"))
        return
    if s.get("k") == "decl":
        eff = [e for v in s["vs"] if v.get("init") is not None for e in G.effects(f.tu, v["init"], D)]
        eff = [e for e in eff]
    else:
        eff = G.effects(f.tu, s, D)
        eff = [e for e in eff if not (e[1] and e[1][0] == "local" and which == "with" and debug_only(f, e[1][1], D))]
    jumps = [n for n in nodes(s) if n["k"] in ("return", "break", "continue")]
    eff = [e for e in eff if not (e[1] and e[1][0] == "global" and e[1][1] and last(e[1][1]) in STREAMS)]
    if eff:
        bad.append((at(f, s), "only %s assertions: %s" % (which, eff[0][2])))
    elif jumps and not (s.get("k") in ("for", "rfor", "while") and all(n["k"] != "return" for n in jumps)):
        bad.append((at(f, s), "only %s assertions: %s" % (which, jumps[0]["k"])))


def debug_only(f, d, D):
    """A local that nothing but assertions reads."""
    inside = set()
    for n in asserts_of(f):
        inside |= set(map(id, nodes(n)))
    for n in nodes(tree(f)):
        if n["k"] == "ref" and n.get("d") == d and id(n) not in inside:
            pass
    reads = [n for n in nodes(tree(f)) if n["k"] == "cast" and n.get("ck") == "LValueToRValue" and skip(n["e"]).get("d") == d and id(n) not in inside]
    return not reads


# ---------------------------------------------------------------- G04: timestamps
WIDE = {"long", "unsigned long", "long long", "unsigned long long", "double", "long double"}
NARROW = {"int", "unsigned int", "unsigned", "short", "unsigned short", "char", "signed char", "unsigned char", "float"}
ACCESS = {"back", "front", "at", "operator[]", "operator*", "operator->", "begin", "end", "cbegin", "cend", "rbegin", "rend", "get", "value", "top", "operator++", "operator--",
          "operator+", "value_or", "data"}
INSERT = {"push_back", "emplace_back", "push", "emplace", "insert", "push_front", "emplace_front", "assign", "resize"}


def plain(t):
    return (t or "").replace("const ", "").replace("volatile ", "").strip().rstrip("&").strip()


def cj(a, b):
    """Join of value classes: None nothing known, 0 constant, 'T' point in time, 'Q' quotient of one, 'D' other, '?' either."""
    if a == b or b is None:
        return a
    if a is None:
        return b
    if a == 0:
        return b
    if b == 0:
        return a
    return "?"


class Times:
    def __init__(self, ctx, G):
        self.G, self.P = G, G.P
        self.cls = {}
        self.sites = {}
        self.fs = list(bodies(self.P))
        self.lam = {}
        self.final = False
        for rnd in range(9):
            self.ch = False
            self.sites = {}
            for f in self.fs:
                self.f, self.D = f, Decls(tree(f))
                for t in tree(f):
                    self.stmt(t)
                for i in f.d.get("inits", []):
                    if i.get("f"):
                        self.put(("fld", f.d.get("cls"), i["f"]), self.val(i.get("e")), i.get("ft"))
            for r in self.P.records.values():
                for x in r["fields"]:
                    if x.get("init") is not None:
                        self.put(("fld", r["n"], x["n"]), 0, x["t"])
            if self.final:
                break
            self.final = not self.ch or rnd == 7

    def put(self, key, c, t=None):
        old = self.cls.get(key)
        new = cj(old, c)
        if new != old:
            self.cls[key] = new
            self.ch = True

    def lkey(self, d):
        return ("v", self.f.tu, d)

    def stmt(self, n):
        """Every expression below n, statement by statement."""
        if isinstance(n, list):
            for x in n:
                self.stmt(x)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "decl":
            for v in n["vs"]:
                self.decl(v)
            return
        if k == "rfor":
            for x in ("range", "begin", "end", "c", "inc"):
                if n.get(x):
                    self.stmt(n[x])
            if isinstance(n.get("var"), dict):
                self.stmt(n["var"]) if n["var"].get("k") == "decl" else self.decl(n["var"])
            self.stmt(n.get("body"))
            return
        if k == "return":
            c = self.val(n.get("e")) if n.get("e") is not None else None
            if not self.inlam:
                self.put(("ret", self.f.key), c)
            else:
                self.put(("lret", self.inlam[-1]), c)
            return
        if k in ("block", "if", "while", "for", "do", "switch", "case", "default", "expr", "break", "continue"):
            for x in kids(n):
                self.stmt(x)
            return
        if k:
            self.val(n)
        else:
            for x in kids(n):
                self.stmt(x)

    inlam = ()

    def decl(self, v):
        if "d" in v and v.get("init") is not None:
            c = self.val(v["init"])
            self.put(self.lkey(v["d"]), c, v.get("t"))
            for b in v.get("binds", ()):
                if "d" in b:
                    self.put(self.lkey(b["d"]), c if plain(b.get("t")) in WIDE or not b.get("t") else "D")

    def site(self, n, c, what, to):
        self.sites[(self.f.qn + sig(self.f), n.get("l"), what, to)] = (self.f, n, cj(self.sites.get((self.f.qn + sig(self.f), n.get("l"), what, to), (0, 0, None))[2], c))

    def val(self, e):
        if e is None:
            return None
        if isinstance(e, list):
            c = None
            for x in e:
                c = cj(c, self.val(x))
            return c
        k = e.get("k")
        if k in ("int", "float", "bool", "str", "null"):
            return 0
        if k == "cast":
            c = self.val(e["e"])
            ck, ft, t = e.get("ck"), plain(e.get("ft")), plain(e.get("t"))
            if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
                if ft in WIDE and t in NARROW:
                    self.site(e, c, ft, t)
                    return "D"
                return c if c == 0 or t in WIDE and ft in WIDE else "D"
            if ck in ("ToVoid", "IntegralToBoolean", "PointerToBoolean"):
                return None
            return c
        if k in ("mat", "defarg"):
            return self.val(e["e"])
        if k == "ref":
            return self.cls.get(self.lkey(e.get("d")))
        if k == "mem":
            b = self.val(e["b"])
            own = strip(e.get("own"))
            if ("fld", e.get("own"), e.get("f")) in self.cls:
                return self.cls[("fld", e.get("own"), e.get("f"))]
            return b if plain(e.get("t")) in WIDE else None
        if k == "bin":
            a, b = self.val(e["a"]), self.val(e["b"])
            op = e["op"]
            if op == "=":
                self.assign(e["a"], b)
                return b
            if op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                return "D"
            if op == ",":
                return b
            if op == "+":
                return "T" if "T" in (a, b) else "?" if "?" in (a, b) else cj(a, b)
            if op == "-":
                if not self.final and (a is None or b is None):
                    return None     # not known yet
                if a == "T":
                    return "D" if b == "T" else "T" if b == 0 or b == "D" else "?"
                if a is None and b == "T":
                    return "?"
                return "?" if a == "?" else cj(a, b) if a != 0 else "?" if b == "T" else b
            if op == "/":
                return "Q" if a == "T" else "?" if a in ("?", "Q") else "D"
            if op == "%":
                return "D"
            if op == "*":
                return "T" if "Q" in (a, b) else "?" if "?" in (a, b) or "T" in (a, b) else cj(a, b)
            return cj(a, b)
        if k == "cassign":
            b = self.val(e["b"])
            a = self.val(e["a"])
            if e["op"] in ("+", "+=") and b == "T":
                self.assign(e["a"], "T")
            elif e["op"] in ("-", "-=") and not self.final and b is None:
                pass
            elif e["op"] in ("-", "-=") and a == "T":
                # a time becomes a distance, or is moved by one
                self.assign(e["a"], "D" if b == "T" else "T" if b in (0, "D") else "?")
            elif e["op"] in ("/", "/=", "%", "%=", "*", "*="):
                self.assign(e["a"], "?" if a in ("T", "Q", "?") else "D")
            return a
        if k == "un":
            c = self.val(e["e"])
            return c if e.get("op") in ("-", "+", "&", "*", "++", "--") else "D"
        if k == "cond":
            self.val(e["c"])
            return cj(self.val(e["a"]), self.val(e["b"]))
        if k == "sub":
            self.val(e["i"])
            return self.val(e["b"])
        if k == "lambda":
            for c in e.get("caps", ()):
                x = self.val(c.get("init"))
                if "d" in c:
                    self.put(self.lkey(c["d"]), x)
            self.inlam = tuple(self.inlam) + (id(e),)
            for o in [e.get("op")] + list(e.get("insts", ())):
                if isinstance(o, dict):
                    self.stmt(o.get("body"))
            self.inlam = self.inlam[:-1]
            return None
        if k in ("call", "ctor"):
            return self.call(e)
        c = None
        for x in kids(e):
            c = cj(c, self.val(x) if isinstance(x, list) or "k" in x else None)
        return c if k in ("init", "initlist_std") else None

    def assign(self, lhs, c):
        x = skip(lhs)
        if not isinstance(x, dict):
            return
        if x.get("k") == "ref":
            self.put(self.lkey(x.get("d")), c)
        elif x.get("k") == "mem":
            self.put(("fld", x.get("own"), x.get("f")), c)
        elif x.get("k") in ("call", "sub"):
            o = x.get("obj") or x.get("b")
            if o is not None:
                self.assign(o, c)

    def call(self, e):
        fn = e.get("fn") or {}
        q, b = qn(e), last(qn(e))
        obj = e.get("obj")
        o = self.val(obj) if obj is not None else None
        cs = [self.val(a) for a in e["args"]]
        rt = plain(e.get("t"))
        if b == "operator()":
            # a lambda held in a local variable
            lam = skip(obj if obj is not None else e["args"][0]) if obj is not None or e["args"] else {}
            v = self.D.local.get(lam.get("d")) if isinstance(lam, dict) and lam.get("k") == "ref" else None
            lam = next((x for x in nodes(v["init"]) if x["k"] == "lambda"), None) if v is not None and v.get("init") is not None else None
            for x in [lam.get("op")] + list(lam.get("insts", ())) if lam is not None else ():
                for i, pa in enumerate(x.get("params", []) if isinstance(x, dict) else []):
                    j = i + (1 if obj is None else 0)
                    if j < len(cs) and plain(pa["t"]) not in NARROW:
                        self.put(self.lkey(pa.get("d")), cs[j])
        if b.startswith("operator") and obj is None and cs:
            o, cs = cs[0], cs[1:]
        ts = self.G.targets(self.f.tu, e)
        for g in ts:
            for i, p in enumerate(g.d.get("params", [])):
                if i < len(cs) and plain(p["t"]) not in NARROW:
                    self.put(("v", g.tu, p.get("d")), cs[i])
        if ts and not (fn.get("lambda")):
            c = None
            for g in ts:
                c = cj(c, self.cls.get(("ret", g.key)))
            return c
        if "timestamp" in b and not b.startswith(("set_", "has_", "clear_")) and rt in WIDE and fn.get("method"):
            return "T"
        if q.startswith("absl::ToUnix") and rt in WIDE or q == "absl::ToTimeT":
            return "T"
        if b in ("lower_bound", "upper_bound") and len(e["args"]) >= 4:
            lam = skip(e["args"][3])
            v = self.D.local.get(lam.get("d")) if lam.get("k") == "ref" else None
            if v is not None and v.get("init") is not None:
                lam = skip(v["init"])
            lam = next((x for x in nodes(lam) if x["k"] == "lambda"), None)
            if lam is not None and isinstance(lam.get("op"), dict):
                ps = lam["op"].get("params", [])
                i = 1 if b == "lower_bound" else 0
                if i < len(ps):
                    if plain(ps[i]["t"]) in NARROW:
                        self.site(e, cs[2], "long", plain(ps[i]["t"]) + " parameter of the comparison")
                    else:
                        self.put(self.lkey(ps[i]["d"]), cs[2])
            return cs[0]
        if b in INSERT and obj is not None:
            ta = plain(first_targ(e.get("objt", "").split("<", 1)[1])) if "<" in e.get("objt", "") else ""
            c = None
            for x in cs:
                c = cj(c, x)
            if ta in NARROW:
                if any(x in ("T", "?") for x in cs):
                    self.site(e, "T" if "T" in cs else "?", "long", "element of type " + ta)
            elif "T" in cs:
                self.assign(obj, "T")
            return None
        if b in ("size", "length", "distance", "count", "operator==", "operator!=", "operator<"):
            return "D"
        if b == "operator-" and o is not None and obj is not None or b == "operator-" and "iterator" in str(fn.get("pt")):
            return "D"
        if b in ACCESS:
            return o
        if e["k"] == "ctor":
            c = None
            for x in cs:
                c = cj(c, x) if x == "T" or c is None else c
            return "T" if "T" in cs and "trader::" not in strip(e.get("t")).split("<")[0] else None
        if "T" in cs and (rt in WIDE or "pair" in rt or "iterator" in rt or "tuple" in rt or "vector" in rt):
            if b in ("abs", "max", "min", "clamp", "move", "forward", "make_pair", "make_tuple", "next", "prev", "exchange", "back_inserter", "copy"):
                return "T" if all(x in ("T", 0, "D") for x in cs) else "?"
            return "?"
        if b in ("max", "min", "abs", "clamp", "move", "forward"):
            c = None
            for x in cs:
                c = cj(c, x)
            return c
        return None


def strip(t):
    return effects.strip_tpl(t or "")


def g04(ctx):
    R = "timestamps"
    ctx.rule(R, "no value that is a point in time in seconds is converted to an integer of less than 64 bits or to single precision, at any conversion of the repository, "
                "explicit or implicit, nor stored as an element of such a type")
    P = ctx.P()
    G = prog(ctx)
    t = Times(ctx, G)
    for (fn, line, ft, to), (f, n, c) in sorted(t.sites.items(), key=str):
        inst = "%s:%s %s to %s" % (fn, line, ft, to)
        if c == "T":
            ctx.bad(R, inst, at(f, n), "a timestamp is converted to %s" % to)
        elif c == "?":
            ctx.undec(R, inst, at(f, n), "whether the value is a point in time")
        else:
            ctx.ok(R, inst, at(f, n))
    for f in t.fs:
        ctx.ok(R, f.qn + sig(f), f.where)
    for file, d in P.protos.items():
        for m, x in d["messages"].items():
            for fname, fd in x["fields"].items():
                if "timestamp" in fname:
                    ctx.check(R, "%s.%s" % (m, fname), file, fd["type"] in ("int64", "uint64", "sint64", "fixed64", "sfixed64"), "a timestamp is stored as %s" % fd["type"])


PROPERTIES = {"G01": [g01], "G02": [g02], "G03": [g03], "G04": [g04]}
