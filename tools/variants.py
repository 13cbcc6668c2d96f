#!/usr/bin/env python3
"""Development aid: apply variants of /repo (tools/variants/*.py: refactorings that must stay silent and bugs that must be
reported) and the patches under seeded/ to scratch copies, build, test, run all checks.

    tools/variants.py [-w N] [--nobuild] [--props A,B] [pattern...]
"""
import glob
import importlib.util
import os
import queue
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("MUTROOT", "/tmp/mut")
VERBOSE = False


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "tools/variants/*.py"))):
        spec = importlib.util.spec_from_file_location("v_" + os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.VARIANTS
    for d in sorted(glob.glob(os.path.join(VERIF, "seeded/*/patch.diff"))):
        out.append(("seed:" + os.path.basename(os.path.dirname(d)), "bug", d))
    return out


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def prepare(i):
    w = "%s/w%d" % (ROOT, i)
    if not os.path.exists(w):
        os.makedirs(ROOT, exist_ok=True)
        sh("cp -a /repo %s" % w)
        sh("rm -rf %s/_build/.ninja_deps %s/_build/.ninja_log" % (w, w))
        s = open(w + "/_build/build.ninja").read().replace("/repo", w)
        open(w + "/_build/build.ninja", "w").write(s)
        r = sh("ninja -C _build -j3", cwd=w)
        if r.returncode:
            raise SystemExit(r.stdout[-2000:] + r.stderr[-2000:])
    else:
        sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", cwd=w)
    return w


def apply(w, v):
    if isinstance(v[2], str):
        r = sh("git apply %s" % v[2], cwd=w)
        return r.stderr if r.returncode else None
    for f, a, b, *n in v[2]:
        p = os.path.join(w, f)
        s = open(p).read()
        if a not in s:
            return "%s: text not found: %s" % (f, a[:80])
        open(p, "w").write(s.replace(a, b, n[0] if n else 1))
    return None


def tests(w):
    bad = []
    for l in open(w + "/_build/tests.txt"):
        label, exe = l.split()
        r = sh("%s/_build/%s --gtest_brief=1" % (w, exe), cwd=w, env=dict(os.environ, TZ="UTC"), timeout=120)
        if r.returncode:
            bad.append(label)
    return bad


def main():
    a = sys.argv[1:]
    n, build, props, pats = 3, True, "", []
    while a:
        x = a.pop(0)
        if x == "-w":
            n = int(a.pop(0))
        elif x == "--nobuild":
            build = False
        elif x == "-v":
            global VERBOSE
            VERBOSE = True
        elif x == "--props":
            props = a.pop(0).replace(",", " ")
        else:
            pats.append(x)
    vs = [v for v in load() if not pats or any(p in v[0] for p in pats)]
    q = queue.Queue()
    for v in vs:
        q.put(v)
    lock = threading.Lock()
    summary = []

    def work(i):
        w = prepare(i)
        while True:
            try:
                v = q.get_nowait()
            except queue.Empty:
                return
            msg = []
            err = apply(w, v)
            if err:
                msg.append("PATCH: " + err)
            else:
                if build and v[1] != "tbug":
                    r = sh("ninja -C _build -j3", cwd=w)
                    if r.returncode:
                        msg.append("DOES NOT BUILD: " + "\n".join(l for l in r.stdout.splitlines() if "error" in l)[:600])
                    else:
                        t = tests(w)
                        if t:
                            msg.append("TESTS FAIL: " + " ".join(t))
                r = sh("JOBS=3 python3 %s/tools/checkall.py %s" % (VERIF, props), cwd=VERIF, env=dict(os.environ, VERIF_REPO=w))
                msg.append((r.stdout + r.stderr[-500:]).strip())
            sh("git checkout -q -- .", cwd=w)
            text = "\n".join(msg)
            viol = "VIOLATION" in text
            rc2 = " rc=2" in text or " rc=3" in text or "BUILD" in text or "EXC" in text
            good = (viol if v[1].endswith("bug") else not viol) and not rc2 and not any(m.startswith(("PATCH", "DOES", "TESTS")) for m in msg)
            with lock:
                summary.append((v[0], v[1], good, text))
                print("=" * 8, v[0], v[1], "as expected" if good else "UNEXPECTED", flush=True)
                if VERBOSE:
                    print(text, flush=True)
                elif not good or "UNDECIDED" in text:
                    print("\n".join(l[:260] for l in text.splitlines()[:14]), flush=True)
                elif v[1].endswith("bug"):
                    print("   ", " ".join(l.split()[0] for l in text.splitlines() if " rc=1" in l), flush=True)
    ths = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    print("\nsummary: %d of %d as expected" % (sum(1 for s in summary if s[2]), len(summary)))
    for s in sorted(summary):
        if not s[2]:
            print("   ", s[0], s[1])


if __name__ == "__main__":
    main()
