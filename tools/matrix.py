#!/usr/bin/env python3
"""Development aid: runs every check against every planted bug and prints a table for DESIGN.md.   tools/matrix.py [-w N] [--own] [id...]
--own runs only the check of the bug's own property."""
import json
import os
import queue
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import variants as va  # noqa
VERIF = os.path.dirname(HERE)


def main():
    a = sys.argv[1:]
    n = 3
    if a[:1] == ["-w"]:
        n, a = int(a[1]), a[2:]
    own = a[:1] == ["--own"]
    a = a[1:] if own else a
    q = queue.Queue()
    out = {}
    for s in sorted(os.listdir(VERIF + "/seeded")):
        if not a or any(x in s for x in a):
            q.put(s)

    def work(i):
        w = va.prepare(i)
        while True:
            try:
                s = q.get_nowait()
            except queue.Empty:
                return
            d = VERIF + "/seeded/" + s
            va.sh("git checkout -q -- . && git apply %s/patch.diff" % d, cwd=w)
            r = subprocess.run([sys.executable, HERE + "/checkall.py"] + ([json.load(open(d + "/meta.json"))["property"]] if own else []), capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE="/tmp/ev-m%d" % i))
            va.sh("git checkout -q -- .", cwd=w)
            hit = sorted({x.split("property=")[1].split()[0] for x in r.stdout.splitlines() if x.strip().startswith("VIOLATION")})
            meta = json.load(open(d + "/meta.json"))
            out[s] = (meta["property"], hit, meta["what_it_breaks"])
            print(s, meta["property"], " ".join(hit), "" if meta["property"] in hit else "MISSED", flush=True)
    ths = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    json.dump(out, open("/tmp/matrix.json", "w"))


if __name__ == "__main__":
    main()
