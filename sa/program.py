"""Loads the resolved program: runs protoc and the AST exporter on the current
tree, merges the translation units."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "/usr/lib/llvm-18/bin/clang++"


class BuildError(Exception):
    pass


def plugin_path():
    src = os.path.join(VERIF, "tools/astx/astx.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, "build"), os.path.join(tempfile.gettempdir(), "astx-%d" % os.getuid())):
        so = os.path.join(d, "astx-%s.so" % h)
        if os.path.exists(so):
            return so
    d = os.path.join(VERIF, "build")
    try:
        os.makedirs(d, exist_ok=True)
        if not os.access(d, os.W_OK):
            raise OSError
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "astx-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "astx-%s.so" % h)
    tmp = so + ".%d.tmp" % os.getpid()
    r = subprocess.run([CLANG, "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti",
                        "-I/usr/lib/llvm-18/include", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("exporter does not build:\n" + r.stderr[-3000:])
    os.rename(tmp, so)
    return so


def repo_sources():
    ccs, protos = [], []
    for dp, dn, fn in os.walk(REPO):
        rel = os.path.relpath(dp, REPO)
        dn[:] = sorted(d for d in dn if not d.startswith(".") and d != "_build" and not d.startswith("bazel-")
                       and d not in ("testdata",))
        for f in sorted(fn):
            p = os.path.normpath(os.path.join(rel, f))
            if f.endswith(".proto"):
                protos.append(p)
            elif f.endswith((".cc", ".cpp", ".cxx")):
                if f.endswith("_test.cc") or f == "test_util.cc":
                    continue
                ccs.append(p)
    return ccs, protos


class Program:
    def __init__(self):
        self.tus = {}
        self.funcs = {}      # mangled -> (tu, def)
        self.byid = {}       # (tu, id) -> def
        self.internal = {}   # (tu, mangled) -> def
        self.byqn = {}       # stripped qualified name -> [F]
        self.records = {}    # name -> record
        self.types = {}
        self.vars = []       # (tu, var)
        self.asserts = set()
        self.protos = {}
        self.all = []        # F
        self.lams = {}       # (tu, cls) -> node
        self.files = set()


class F:
    __slots__ = ("tu", "d", "qn", "key")

    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.qn = strip_tpl(d["qn"])
        self.key = (tu, d["id"])

    @property
    def where(self):
        return "%s:%s" % (self.d.get("file"), self.d.get("line"))

    def __repr__(self):
        return "<%s %s>" % (self.qn, self.where)


_opre = re.compile(r"operator\s*(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)")
_stc = {}


def strip_tpl(s):
    r = _stc.get(s)
    if r is not None:
        return r
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "o" and d == 0:
            m = _opre.match(s, i)
            if m:
                out.append(m.group(0))
                i = m.end()
                continue
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = "".join(out).replace("__cxx11::", "").replace("__1::", "").replace("(anonymous namespace)::", "").replace("(anonymous)::", "")
    r = r.replace("lts_20220623::", "")
    r = re.sub(r"\blts_\d+::", "", r)
    _stc[s] = r
    return r


def export(ndebug=True, keep=None):
    """Run protoc + exporter into a scratch dir; returns {tu: json}."""
    so = plugin_path()
    ccs, protos = repo_sources()
    if not ccs:
        raise BuildError("no sources found under " + REPO)
    d = tempfile.mkdtemp(prefix="sa-")
    try:
        gen = os.path.join(d, "gen")
        os.makedirs(gen)

        def run_protoc(p):
            r = subprocess.run(["protoc", "-I" + REPO, "--cpp_out=" + gen, os.path.join(REPO, p)],
                               capture_output=True, text=True)
            return p, r

        with ThreadPoolExecutor(8) as ex:
            for p, r in ex.map(run_protoc, protos):
                if r.returncode != 0:
                    raise BuildError("protoc %s: %s" % (p, r.stderr[-2000:]))

        def run_cc(p):
            out = os.path.join(d, p.replace("/", "_") + ".json")
            cmd = [CLANG, "-std=c++17", "-DHAVE_ZLIB", "-I" + REPO, "-I" + gen, "-fsyntax-only", "-w"]
            if ndebug:
                cmd.append("-DNDEBUG")
            cmd += ["-Xclang", "-load", "-Xclang", so, "-Xclang", "-plugin", "-Xclang", "astx"]
            for a in ("out=" + out, "root=" + REPO.rstrip("/") + "/", "exclude=" + REPO.rstrip("/") + "/_build/"):
                cmd += ["-Xclang", "-plugin-arg-astx", "-Xclang", a]
            cmd.append(os.path.join(REPO, p))
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
            if r.returncode != 0 or not os.path.exists(out):
                return p, None, r.stderr[-3000:]
            with open(out) as f:
                return p, json.load(f), None

        res = {}
        with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
            for p, j, err in ex.map(run_cc, ccs):
                if j is None:
                    raise BuildError("cannot analyse %s:\n%s" % (p, err))
                res[p] = j
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tree_hash(ndebug):
    h = hashlib.sha256()
    h.update(b"n" if ndebug else b"a")
    h.update(open(os.path.join(VERIF, "tools/astx/astx.cc"), "rb").read())
    for dp, dn, fn in os.walk(REPO):
        dn[:] = sorted(x for x in dn if not x.startswith(".") and x != "_build" and not x.startswith("bazel-"))
        for f in sorted(fn):
            if f.endswith((".cc", ".h", ".proto", ".hpp", ".cpp", ".inc")):
                p = os.path.join(dp, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def load(ndebug=True):
    """Export (or take the export of an identical tree from VERIF_CACHE, a
    convenience for development only) and link."""
    cache = os.environ.get("VERIF_CACHE")
    js = None
    if cache:
        os.makedirs(cache, exist_ok=True)
        cp = os.path.join(cache, tree_hash(ndebug) + ".json")
        if os.path.exists(cp):
            js = json.load(open(cp))
    if js is None:
        js = export(ndebug)
        if cache:
            tmp = cp + ".%d" % os.getpid()
            with open(tmp, "w") as f:
                json.dump(js, f)
            os.rename(tmp, cp)
    return link(js)


def link(js):
    P = Program()
    for tu, j in js.items():
        P.tus[tu] = j
        P.files.add(tu)
        for k, v in j["types"].items():
            o = P.types.get(k)
            if o is None or (v.get("k") != "?" and o.get("k") == "?"):
                P.types[k] = v
        for r in j["records"]:
            P.records.setdefault(r["n"], r)
        for v in j["vars"]:
            P.vars.append((tu, v))
        for a in j["asserts"]:
            P.asserts.add((a["file"], a["line"]))
        for fd in j["functions"]:
            f = F(tu, fd)
            P.byid[(tu, fd["id"])] = f
            mg = fd.get("mg")
            if fd.get("internal") or mg == "main":
                P.internal[(tu, mg)] = f
                P.byqn.setdefault(f.qn, []).append(f)
                P.all.append(f)
            elif mg:
                if mg not in P.funcs:
                    P.funcs[mg] = f
                    P.byqn.setdefault(f.qn, []).append(f)
                    P.all.append(f)
        _collect_lams(P, tu, j["functions"])
        _collect_lams(P, tu, j["vars"])
    P.protos = parse_protos()
    return P


def _collect_lams(P, tu, x):
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if n.get("k") == "lambda":
                P.lams[(tu, n["cls"])] = n
            if "fn" in n or "file" in n:
                for fr in (n.get("fn"), n):
                    if isinstance(fr, dict) and fr.get("file"):
                        P.files.add(fr["file"])
            st.extend(n.values())
        elif isinstance(n, list):
            st.extend(n)


# --------------------------------------------------------------------- proto
_tok = re.compile(r'"(?:\\.|[^"\\])*"|[A-Za-z_][\w.]*|-?\d+|[{}=;\[\],()<>]')


def parse_protos():
    """{file: {message full name: {'fields': {name: (label,type,number,oneof,default)}, ...}}}"""
    _, protos = repo_sources()
    out = {}
    for p in protos:
        src = open(os.path.join(REPO, p)).read()
        src = re.sub(r"//[^\n]*", "", src)
        src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
        toks = _tok.findall(src)
        out[p] = _parse(toks)
    return out


def _parse(toks):
    res = {"package": "", "messages": {}, "enums": {}, "syntax": "proto2"}
    i = 0

    def msg(i, prefix):
        name = prefix + toks[i]
        m = {"fields": {}, "oneofs": {}}
        res["messages"][name] = m
        i += 2
        oneof = None
        while True:
            t = toks[i]
            if t == "}":
                if oneof is not None:
                    oneof = None
                    i += 1
                    continue
                return i + 1
            if t == "message":
                i = msg(i + 1, name + ".")
                continue
            if t == "enum":
                i = enum(i + 1, name + ".")
                continue
            if t == "oneof":
                oneof = toks[i + 1]
                m["oneofs"][oneof] = []
                i += 3
                continue
            if t in ("reserved", "extensions", "option"):
                while toks[i] != ";":
                    i += 1
                i += 1
                continue
            label = "optional"
            if t in ("optional", "required", "repeated"):
                label = t
                i += 1
            ft, fn = toks[i], toks[i + 1]
            assert toks[i + 2] == "=", toks[i:i + 5]
            no = int(toks[i + 3])
            i += 4
            default = None
            while toks[i] != ";":
                if toks[i] == "default":
                    default = toks[i + 2]
                i += 1
            i += 1
            m["fields"][fn] = {"label": label, "type": ft, "no": no, "oneof": oneof, "default": default}
            if oneof:
                m["oneofs"][oneof].append(fn)

    def enum(i, prefix):
        name = prefix + toks[i]
        e = {}
        res["enums"][name] = e
        i += 2
        while toks[i] != "}":
            if toks[i] == "option":
                while toks[i] != ";":
                    i += 1
                i += 1
                continue
            e[toks[i]] = int(toks[i + 2])
            i += 3
            while toks[i] != ";":
                i += 1
            i += 1
        return i + 1

    while i < len(toks):
        t = toks[i]
        if t == "syntax":
            res["syntax"] = toks[i + 2].strip('"')
            i += 4
        elif t == "package":
            res["package"] = toks[i + 1]
            i += 3
        elif t in ("import", "option"):
            while toks[i] != ";":
                i += 1
            i += 1
        elif t == "message":
            i = msg(i + 1, "")
        elif t == "enum":
            i = enum(i + 1, "")
        else:
            i += 1
    return res
