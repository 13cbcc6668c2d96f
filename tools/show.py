#!/usr/bin/env python3
"""Development aid: value-flow of one function.  tools/show.py QN[#i] [-o opaque,..] [-d depth] [-n nargs]"""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
from sa import runner, util, interp
from sa.core import *
from sa.util import *


def w(s, n=220):
    s = str(s)
    return s if len(s) < n else s[:n] + "..."


def evs(I, ev, ind):
    for e in ev:
        if isinstance(e, interp.Loop):
            print(" " * ind + "LOOP L%s %s cond=%s" % (e.lid, e.where, w(showdd(e.cond, 3))))
            for m, k in e.mods.items():
                print(" " * ind + "   mod", w(m, 100), "=>", w(showdd(I.load(e.back, m, k), 3)) if e.back.pc is not FALSE else "-")
            evs(I, e.ev, ind + 4)
        else:
            print(" " * ind + "EV %s %s pc=%s args=%s -> %s" % (e.kind, e.name, w(showdd(e.pc, 2), 120), w([w(showdd(a, 2), 80) if isinstance(a, (T, N)) else a for a in (e.args or ())], 300), w(showdd(e.res, 1), 60) if isinstance(e.res, (T, N)) else e.res))


def main():
    a = sys.argv[1:]
    qn = a.pop(0)
    opq, i, d = (), 0, 4
    while a:
        x = a.pop(0)
        if x == "-o":
            opq = tuple(a.pop(0).split(","))
        if x == "-d":
            d = int(a.pop(0))
    if "#" in qn:
        qn, i = qn.split("#")
    ctx = runner.Ctx("X", "quick")
    fs = ctx.fn(qn)
    print([f.where for f in fs])
    f = fs[int(i)]
    I, st, v, rl = run(ctx, f, opaque=opq)
    print("gaps", gaps(I)[:5])
    print("ret", w(showdd(v, d), 1500) if isinstance(v, (T, N)) else v)
    for loc, x in sorted(st.mem.items(), key=str):
        if loc and loc[0][0] in ("ret", "P", "V") or 1:
            print("  mem", w(loc, 90), "=", w(showdd(x, d), 300) if isinstance(x, (T, N)) else x)
    evs(I, I.ev, 0)


t = threading.Thread(target=main)
t.start()
t.join()
