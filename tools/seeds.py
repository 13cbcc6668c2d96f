#!/usr/bin/env python3
"""Development aid: makes seeded/<id>/ from tools/seedsrc/*.py and confirms each (applies, builds, tests pass, the
demonstration passes without and fails with the change).   tools/seeds.py [-w N] [id-pattern...]"""
import glob
import importlib.util
import json
import os
import queue
import shutil
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import variants as va  # noqa

VERIF = os.path.dirname(HERE)
DEMO = """#!/bin/bash
# Runs in the repository after its build: 0 if the property holds for the demonstrated case, nonzero otherwise.
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
repo=$PWD
objs=()
for s in %s; do
  out="$work/$(echo "$s" | tr / _).o"
  src="$repo/$s"
  [ -f "$src" ] || src="$repo/_build/gen/$s"
  g++ -std=c++17 -O0 -w -DHAVE_ZLIB -I"$repo" -I"$repo/_build/gen" $(pkg-config --cflags protobuf) -c "$src" -o "$out" &
  objs+=("$out")
done
g++ -std=c++17 -O0 -w -DHAVE_ZLIB -I"$here" -I"$repo" -I"$repo/_build/gen" $(pkg-config --cflags protobuf) -c "$here/demo.cc" -o "$work/demo.o" || exit 3
wait
g++ "$work/demo.o" "${objs[@]}" -o "$work/demo" $(pkg-config --libs absl_status absl_statusor absl_strings absl_str_format absl_time absl_memory %sprotobuf zlib) -lpthread || exit 3
cd "$work" && timeout 60 ./demo "$repo"
"""
SRCS = ["base/account.cc", "base/history.cc", "base/side_input.cc", "eval/eval.cc", "indicators/util.cc", "indicators/volatility.cc",
        "indicators/last_n_ohlc_ticks.cc", "util/time.cc", "base/base.pb.cc", "eval/eval.pb.cc"]


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "seedsrc/*.py"))):
        spec = importlib.util.spec_from_file_location("s_" + os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    return out


def write(s, patch):
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "sh" in s:
        sh = s["sh"]
    else:
        sh = DEMO % (" ".join(SRCS + s.get("srcs", [])), s.get("libs", ""))
        if s.get("flags"):
            sh = sh.replace("g++ ", "g++ %s " % s["flags"]).replace("timeout 60", "ASAN_OPTIONS=detect_leaks=0 timeout 60")
        shutil.copy(os.path.join(HERE, "seedsrc/demo.h"), d)
        open(d + "/demo.cc", "w").write('#include "demo.h"\n' + s["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    return d


def main():
    a = sys.argv[1:]
    n = 3
    if a[:1] == ["-w"]:
        n = int(a[1])
        a = a[2:]
    ss = load()
    assert len({s["id"] for s in ss}) == len(ss)
    q = queue.Queue()
    for s in ss:
        if not a or any(x in s["id"] for x in a):
            q.put(s)
    bad = []

    def work(i):
        w = va.prepare(i)
        while True:
            try:
                s = q.get_nowait()
            except queue.Empty:
                return
            msg = []
            va.sh("git checkout -q -- . && ninja -C _build -j3", cwd=w)
            err = va.apply(w, (s["id"], "bug", s["edits"]))
            if err:
                msg.append(err)
            else:
                d = write(s, va.sh("git diff", cwd=w).stdout)
                r = va.sh("ninja -C _build -j3", cwd=w)
                if r.returncode:
                    msg.append("DOES NOT BUILD " + r.stdout[-800:])
                else:
                    t = va.tests(w)
                    if t:
                        msg.append("TESTS FAIL " + " ".join(t))
                    r1 = va.sh("bash %s/demo.sh" % d, cwd=w)
                    if r1.returncode in (0, 3):
                        msg.append("demo with the change: %d %s" % (r1.returncode, (r1.stdout + r1.stderr)[-800:]))
                    va.sh("git checkout -q -- . && ninja -C _build -j3", cwd=w)
                    r2 = va.sh("bash %s/demo.sh" % d, cwd=w)
                    if r2.returncode:
                        msg.append("demo without the change: %d %s" % (r2.returncode, (r2.stdout + r2.stderr)[-800:]))
                    if not msg:
                        print("good", s["id"], "|", " / ".join(r1.stdout.splitlines()[:2])[:160], flush=True)
            va.sh("git checkout -q -- .", cwd=w)
            if msg:
                bad.append(s["id"])
                print("BAD", s["id"], "\n   ".join(msg), flush=True)
                d = os.path.join(VERIF, "seeded", s["id"])
                if os.path.exists(d):
                    shutil.rmtree(d)
    ths = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    print("bad:", bad)


if __name__ == "__main__":
    main()
