#!/usr/bin/env python3
"""check.py PROPERTY  -- decide one property of /repo's current tree."""
import importlib
import os
import pkgutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa import runner, rules  # noqa: E402


def table():
    out = {}
    for m in pkgutil.iter_modules(rules.__path__):
        mod = importlib.import_module("sa.rules." + m.name)
        for k, v in getattr(mod, "PROPERTIES", {}).items():
            out.setdefault(k, []).extend(v)
    return out


def run(prop):
    t = table()
    if prop not in t:
        print("unknown property", prop)
        return 2
    return runner.main(prop, t[prop])


if __name__ == "__main__":
    import threading
    rc = []
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=lambda: rc.append(run(sys.argv[1])))
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
