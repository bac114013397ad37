#!/usr/bin/env python3
"""Which planted bugs change only lines (or the places between lines) that our own fix commits added: they do not count."""
import os, re, subprocess, sys, functools
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); BASE = "b5bc4c4"
@functools.lru_cache(None)
def own(f):
    o = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout
    return [not l.startswith("^" + BASE) for l in o.split("\n") if l]
for i in sorted(os.listdir(ROOT + "/seeded")):
    f = None; info = []
    for l in open(f"{ROOT}/seeded/{i}/patch.diff"):
        if l.startswith("+++"): f = l.strip().split("b/", 1)[1]
        elif l.startswith("---"): pass
        elif m := re.match(r"@@ -(\d+)", l): n = int(m[1]) - 1
        elif l.startswith("-"): info.append(("-", own(f)[n])); n += 1
        elif l.startswith("+"): info.append(("+", own(f)[n - 1], own(f)[n] if n < len(own(f)) else False))
        else: n += 1
    rem = [x[1] for x in info if x[0] == "-"]
    print(i, "removed", rem.count(False), rem.count(True), "between", sorted({x[1:] for x in info if x[0] == "+"}))
