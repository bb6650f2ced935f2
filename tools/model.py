#!/usr/bin/env python3
"""Runs TLC on a module with constants overridden (NAME=VALUE ...) and prints a counterexample as state differences."""
import os, re, subprocess, sys, tempfile
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
mod = sys.argv[1]
cfg = open(os.path.join(SPEC, mod + ".cfg")).read()
args = []
for kv in sys.argv[2:]:
    if kv.startswith("-") or args:
        args.append(kv); continue
    if kv.startswith("INV="):
        cfg = re.sub(r"INVARIANTS .*", "INVARIANTS " + kv[4:], cfg); continue
    k, v = kv.split("=", 1)
    cfg, n = re.subn(rf"^(\s*{k}) = .*$", lambda m: f"{m.group(1)} = {v}", cfg, flags=re.M)
    if not n: sys.exit("no constant " + k)
d = tempfile.mkdtemp(dir="/dev/shm")
open(d + "/M.cfg", "w").write(cfg)
p = subprocess.run(["tlc", "-workers", "8", "-metadir", d + "/m", "-noGenerateSpecTE", "-config", d + "/M.cfg"] + args + [mod + ".tla"], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = p.stdout.decode()
subprocess.run(["rm", "-rf", d])
prev = {}
for blk in re.split(r"\n(?=State \d+:)", out):
    m = re.match(r"State (\d+): <?(.*?)( line .*)?>?\n", blk)
    if not m:
        for l in blk.splitlines():
            if re.search(r"rror|states generated|depth|Finished in|violated", l) and not l.startswith("Finished comp"): print(l)
        continue
    print(f"-- {m.group(1)} {m.group(2)}")
    cur = {}
    for v in re.split(r"\n/\\ ", "\n" + blk.split("\n", 1)[1].split("\n\n")[0]):
        if " = " in v:
            k, x = v.split(" = ", 1); cur[k.strip()] = re.sub(r"\s+", " ", x)
    for k, x in cur.items():
        if prev.get(k) != x and k not in ("hist",): print(f"   {k} = {x}")
    prev = cur
    rest = blk.split("\n\n", 1)[1:] 
    for r in rest:
        for l in r.splitlines():
            if "states generated" in l: print(l)
