#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE "needs" "what it breaks" <<< OLD\n====\nNEW   (several hunks separated by a line ----)
Writes seeded/ID/patch.diff and meta.json; leaves /repo as it was."""
import sys, subprocess, json, os
i, prop, f, needs, what = sys.argv[1:6]
d = f"/verif/seeded/{i}"
os.makedirs(d, exist_ok=True)
files = f.split(",")
texts = {x: open("/repo/" + x, newline="").read() for x in files}
for hunk in sys.stdin.read().rstrip("\n").split("\n----\n"):
    old, new = hunk.split("\n====\n") if "\n====\n" in hunk else (hunk.split("\n====")[0], "")
    n = 0
    for x in files:
        t = texts[x]
        o, w = (old.replace("\n", "\r\n"), new.replace("\n", "\r\n")) if "\r\n" in t else (old, new)
        c = t.count(o)
        if c:
            n += c
            texts[x] = t.replace(o, w)
    assert n == 1, (n, old)
for x in files:
    open("/repo/" + x, "w", newline="").write(texts[x])
p = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
open(d + "/patch.diff", "wb").write(p)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
print(p.decode())
