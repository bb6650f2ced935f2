"""P14: several watchers in one process, each judged by its own oracle, on behaviours of Several.tla."""
import random
from gen import *
from check import Check
from tree import replay  # noqa: F401


def many_script(sid, hist, odd=False, n=4):
    rng = random.Random(seeded(sid))
    nm = Namer(rng, odd)
    cm = ["fs mkdir r", "fs mkdir o", ["fs", "mkdir", enc(nm.path(["r", "a"]))], "fs creat src"]
    state, k, opened = {}, 0, []
    for h in hist:
        c, w = h["c"], h["w"] - 1
        if c == "op":
            cm.append(op_cmd(h, rng, nm, False, False))
        elif c == "open":
            cm += [f"open {w} {enc(nm.path(h['p']))} stops=wait", f"arrive {w}"]
            state[w] = "on"
            opened.append(w)
        elif c == "read":
            cm.append(f"go {w} n={h['n']} until=cb,wait")
        elif c == "cb":
            cm.append(f"go {w} until=cb,wait")
        elif c == "close":
            k += 1
            cm += [f"close {k} {w}", f"cjoin {k}"]
            state[w] = "closed"
        elif c == "destroy":
            cm.append(f"destroy {w}")
            state[w] = "gone"
        elif c == "break":
            cm += [f"fault {rng.choice(['epoll_wait', 'epoll_wait', 'read'])} {w} 0 9"]
            state[w] = "broken"
    live = [w for w in opened if state[w] == "on"]
    rng.shuffle(live)
    cm += [f"idle {w}" for w in live]
    for d in final_dirs_many(hist):
        cm.append(["fs", "creat", enc(nm.path(d) + "/probe")])
    rng.shuffle(live)
    for i, w in enumerate(live):
        cm.append(f"idle {w}")
        if i % 2:
            k += 1
            cm += [f"close {k} {w}", f"cjoin {k}"]
            state[w] = "closed"
            for d in final_dirs_many(hist)[:2]:
                cm.append(["fs", "write", enc(nm.path(d) + "/probe")])
    for w in live:
        if state[w] == "on":
            cm.append(f"idle {w}")
    for w in opened:
        if state[w] in ("on", "broken"):
            k += 1
            cm += [f"close {k} {w}", f"cjoin {k}"]
        if state[w] != "gone" and rng.random() < .5:
            cm.append(f"destroy {w}")
    return Script(sid, cm)


def final_dirs_many(hist):
    tree = {"r": {"a": {}}, "o": {}}

    def at(p):
        x = tree
        for c in p:
            x = x[c]
        return x
    for h in hist:
        if h["c"] != "op":
            continue
        p, q = h["p"], h["q"]
        d = at(p[:-1])
        if h["op"] == "mk":
            d[p[-1]] = {} if h["dir"] else None
        elif h["op"] == "rm":
            d.pop(p[-1])
        elif h["op"] == "mv":
            at(q[:-1])[q[-1]] = d.pop(p[-1])
    out = []

    def walk(x, p):
        out.append(p)
        for c in sorted(x):
            if x[c] is not None:
                walk(x[c], p + [c])
    walk(tree["r"], ["r"])
    walk(tree["o"], ["o"])
    return out


def wild():
    """No gates at all: watchers on the same and nested places, traffic, and others which come and go."""
    out = []
    for n in range(24 if not THOROUGH else 120):
        rng = random.Random(seeded("wild", n))
        roots = [rng.choice(["r", "r/a", "o", "r"]) for _ in range(4)]
        cm = ["fs mkdir r", "fs mkdir r/a", "fs mkdir o", "fs creat r/hot"]
        early = rng.random() < .5
        k = 0
        for i, p in enumerate(roots[:3]):
            cm += [f"open {i} {p} stops=wait", f"arrive {i}", f"free {i}"]
        if early:
            cm.append("storm r/hot")
        files = []
        for j in range(60):
            d = rng.choice(["r", "r/a", "o"])
            x = rng.random()
            if x < .55 or not files:
                f = f"{d}/f{j}"
                files.append(f)
                cm.append(f"fs creat {f}")
            elif x < .7:
                cm.append(f"fs write {rng.choice(files)}")
            elif x < .85:
                f = files.pop(rng.randrange(len(files)))
                g = f"{d}/m{j}"
                files.append(g)
                cm.append(f"fs rename {f} {g}")
            else:
                cm.append(f"fs unlink {files.pop(rng.randrange(len(files)))}")
            if j == 20:
                cm += [f"open 3 {roots[3]} stops=wait", "arrive 3", "free 3"]
            if j == 35:
                k += 1
                cm += [f"close {k} 1", f"cjoin {k}"]
            if j == 45:
                cm += ["destroy 2"]
        if early:
            cm.append("calm")
        cm += ["idle 0", "idle 3", "fs creat r/end", "idle 0", "idle 3", f"close {k + 1} 0", f"cjoin {k + 1}", f"close {k + 2} 3", f"cjoin {k + 2}", "destroy 1"]
        out.append(Script(f"wild-{n}", cm))
    return out


def setup():
    drivers()


def check(pid):
    c = Check(pid, "model_checking")
    c.rule = ("behaviours of spec/Several.tla (random walks over operations, reads, callbacks and ends of up to six watchers) imposed on real watchers in one process; "
              "non-trivial: distinct recordings of more than 200 characters")
    bins = drivers()
    c.cov["variants"] = ["/".join(k) for k in bins]
    c.explored(explore("Several", N=2, MaxOps=2, MaxBatch=2, MaxEnd=1))
    if THOROUGH:
        c.explored(explore("Several", N=3, MaxOps=2, MaxBatch=2, MaxEnd=1))
        c.explored(explore("Several", N=2, MaxOps=3, MaxBatch=2, MaxEnd=1))
    m = 8 if THOROUGH else 1
    fams = [("pair", 160 * m, dict(N=2, MaxOps=6, MaxBatch=3, MaxEnd=1)), ("three", 160 * m, dict(N=3, MaxOps=7, MaxBatch=4, MaxEnd=1)),
            ("four", 140 * m, dict(N=4, MaxOps=9, MaxBatch=3, MaxEnd=2)), ("six", 60 * m, dict(N=6, MaxOps=12, MaxBatch=4, MaxEnd=3))]

    def one(f):
        hs = uniq(simulate("Several", f[1], 160, seeded(f[0]) % (1 << 31), **f[2]))
        return [many_script(f"{f[0]}-{i}", h, odd=i % 3 == 0, n=f[2]["N"]) for i, h in enumerate(hs)]
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        scripts = [s for r in ex.map(one, fams) for s in r]
    c.run_stream(bins, scripts + wild())
    return c.finish()
