#!/usr/bin/env python3
"""Development aid: run all (or the named) properties on VERIF_REPO, one export, one fork per property.
Prints a line per property that is not plainly OK."""
import io
import os
import sys
import contextlib
import multiprocessing as mp
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
import check  # noqa
from sa import runner, program  # noqa


def in_thread(f):
    out = []
    t = threading.Thread(target=lambda: out.append(f()))
    t.start()
    t.join()
    return out[0] if out else None


def one(p):
    def go():
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            try:
                rc = runner.main(p, check.table()[p])
            except Exception as e:  # noqa
                rc = 3
                print("EXC", repr(e))
        return rc, b.getvalue()
    return (p,) + (in_thread(go) or (3, "died"))


if __name__ == "__main__":
    import shutil
    import tempfile
    ev = None
    if "VERIF_EVIDENCE" not in os.environ:
        ev = os.environ["VERIF_EVIDENCE"] = tempfile.mkdtemp(prefix="ev-")
    verbose = "-v" in sys.argv
    props = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(check.table())
    try:
        runner.PRELOADED[True] = program.load(True)
    except program.BuildError as e:
        print("BUILD", str(e)[:2000])
        sys.exit(2)
    ok = 0
    with mp.get_context("fork").Pool(int(os.environ.get("JOBS", "8")), maxtasksperchild=1) as pool:
        for p, rc, out in pool.imap(one, props):
            lines = out.splitlines()
            und = [l for l in lines if l.startswith("UNDECIDED")]
            if rc == 0 and not und and not verbose:
                ok += 1
                continue
            print("%s rc=%d" % (p, rc), "undecided=%d" % len(und))
            for l in (und[:3] + [l for l in lines if not l.startswith(("UNDECIDED", "OK", "VIOLATION"))][:4]
                      + [l for l in lines if l.startswith("VIOLATION")]) if not verbose else lines:
                print("    " + l[:400])
    print("%d of %d held" % (ok, len(props)))
    if ev:
        shutil.rmtree(ev, ignore_errors=True)
