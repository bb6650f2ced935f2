#!/usr/bin/env python3
"""trybug.py ID [PROPERTY...]: a planted change against a scratch copy of /repo: its demonstration with and without it, and the checks of the
properties. trybug.py --make ID FILE 's/old/new/'... : makes patch.diff by replacing text (exactly once in each file; '=>' separates)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "/tmp/rb"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh(to):
    sh(f"rm -rf {to}; cp -a /repo {to}; git -C {to} checkout -q -- .")
def demo(i, to):
    d = "/tmp/demo-" + i
    sh(f"rm -rf {d}; cp -r {V}/seeded/{i} {d}; rm -f {d}/*.diff {d}/meta.json")
    try:
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=to, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return r.returncode, r.stdout[-1500:]
    finally:
        sh(f"rm -rf {d}")
def main(a):
    i = a[0]
    fresh(C)
    p = f"{V}/seeded/{i}/patch.diff"
    r, o = demo(i, C)
    print("demo on the unchanged tree:", r, o if r else "")
    g = sh(f"git -C {C} apply {p}")
    if g.returncode: return print("does not apply", g.stdout)
    r, o = demo(i, C)
    print("demo with the change:", r, "" if r else "NOT SEEN", o)
    props = a[1:] or [json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]]
    for q in props:
        c = subprocess.run(["python3", V + "/check.py", q], env=dict(os.environ, VERIF_REPO=C), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(q, "rc", c.returncode, "\n".join(x[:300] for x in c.stdout.splitlines()[-6:]))
    sh(f"rm -rf {C}")
main(sys.argv[1:])
