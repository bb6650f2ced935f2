"""P15: the C interface: the behaviours of the other checks through it, and every history of handles (Handles.tla)."""
import random
from gen import *
from check import Check
import faults, life
import tree as treemod

ALL = ["mkd", "mkf", "mod", "rm", "mv"]


def closed_not_destroyed(s):
    """In C a watcher is never destroyed, only closed."""
    cm, n = [], 70
    for c in s.cmds:
        t = c if isinstance(c, str) else " ".join(c)
        if t.startswith("destroy "):
            n += 1
            cm += [f"close {n} {t.split()[1]}", f"cjoin {n}"]
        else:
            cm.append(t.replace(" how=destroy", ""))
    return Script(s.id, cm, **dict(s.meta, capi=True))


def handle_script(sid, hist):
    rng = random.Random(seeded(sid))
    cm = ["logsys", "fs mkdir r", "fs mkdir r/d", "fs creat m", "snap"]
    n, k, state, kind = 0, 0, {}, {}
    for h in hist:
        w = h["h"] - 1
        if h["c"] == "open":
            path = {"ok": rng.choice(["r", "r", "r/d", "r/ abs=r/ real=r"]), "missing": rng.choice(["nope", "m/x"]), "file": "m", "broken": "r"}[h["k"]]
            if h["k"] == "broken":
                fn, nth, err = rng.choice([("inotify_init", 1, 24), ("epoll_create", 1, 24), ("epoll_ctl", 1, 28), ("epoll_wait", 1, 9), ("inotify_add_watch", 0, 28), ("eventfd", 1, 24)])
                cm.append(f"fault {fn} {w} {nth} {err}")
            cm += [f"open {w} {path} stops=wait", f"arrive {w}"]
            state[w], kind[w] = "open", h["k"]
        elif h["c"] == "close":
            k += 1
            cm += [f"close {k} {w}", f"cjoin {k}"]
            state[w] = "closed"
        elif h["c"] == "null":
            cm.append("closenull")
        else:
            n += 1
            cm.append(rng.choice([f"fs creat r/e{n}", f"fs creat r/d/e{n}", f"fs mkdir r/e{n}"]))
            cm += [f"idle {v}" for v in state if state[v] == "open" and kind[v] == "ok" and rng.random() < .5]
    for w in state:
        if state[w] == "open":
            k += 1
            cm += [f"close {k} {w}", f"cjoin {k}"]
    cm += ["closenull", "snap"]
    return Script(sid, cm, capi=True)


def handles(name, num=None, **consts):
    if num is None:
        hs = uniq(behaviours("Handles", **consts))
    else:
        hs = uniq(simulate("Handles", num, 40, seeded(name) % (1 << 31), **consts))
    hs.sort(key=json.dumps)
    return [handle_script(f"{name}-{i}", h) for i, h in enumerate(hs)]


def rows():
    """Many handles in a row, healthy and failing: nothing stays."""
    out, n = [], 0
    for path in ("r", "nope", "file"):
        for bad in (None, "inotify_init 24", "epoll_ctl 28"):
            for again in (False, True):
                cm = ["logsys", "fs mkdir r", "fs creat file", "snap"]
                for w in range(24):
                    if bad:
                        cm.append(f"fault {bad.split()[0]} {w} 1 {bad.split()[1]}")
                    cm += [f"open {w} {path} stops=wait", f"arrive {w}", f"close {w} {w}", f"cjoin {w}"]
                    if again:
                        cm += [f"close {w + 100} {max(0, w - 1)}", f"cjoin {w + 100}"]
                    cm.append("snap")
                out.append(Script(f"row-{n}", cm, capi=True))
                n += 1
    return out


def streams():
    m = 8 if THOROUGH else 1
    f = treemod.fam
    return families([
        f("cflat", 110, dict(odd=.5), MaxOps=8, MaxPre=2, Kinds=["mkd", "mkf", "mod", "rm"], MaxBatch=5),
        f("cren", 110, dict(odd=.5), MaxOps=7, MaxPre=3, Kinds=["mkf", "mv", "xch", "rm"], Depth=1, Outside=True, MaxBatch=5),
        f("cdir", 90, dict(odd=.3), MaxOps=7, MaxPre=3, Kinds=["mkd", "mkf", "mv"], MaxBatch=4),
        f("ccb", 60, MaxOps=6, MaxPre=2, Kinds=ALL, Gran="cb"),
        f("cout", 60, dict(odd=.3, silent=.4), MaxOps=6, MaxPre=3, Kinds=ALL, Outside=True),
    ])


def lives():
    m = 8 if THOROUGH else 1
    out = life.from_model("clife0", MaxOps=0, MaxClose=2)
    out += life.from_model("clife", num=150 * m, MaxOps=3, MaxQ=3, MaxClose=2)
    out += life.from_model("cnot", MaxOps=0, Dir=False, MaxClose=2, _opts=lambda i: dict(kind=sorted(life.BAD)[i % len(life.BAD)]))
    out += life.broken("cbroken", 100 * m, life.FATAL + life.MILD)
    out += life.paths()
    return [closed_not_destroyed(s) for s in out]


def ref(rec, meta=None):
    return normalise(rec, meta)


def setup():
    drivers(apis=("c",))


def check(pid):
    c = Check(pid, "model_checking")
    c.rule = ("every history of handles of Handles.tla up to five calls and random longer ones, and behaviours of TreeModel.tla and Lifecycle.tla, through the real C "
              "interface; non-trivial: distinct recordings of more than 200 characters")
    bins = drivers(apis=("c",))
    c.cov["variants"] = ["/".join(k) for k in bins]
    c.explored(explore("Handles", N=3, MaxCalls=7))
    m = 8 if THOROUGH else 1
    hs = handles("handles", N=2, MaxCalls=4, Kinds=["ok", "missing"]) + handles("handlesr", 200 * m, N=3, MaxCalls=8) + handles("handlesx", 60 * m, N=6, MaxCalls=16)
    c.run_stream(bins, hs + [closed_not_destroyed(s) for s in streams()] + lives())
    c.run_stream(bins, [Script("led" + s.id, s.cmds, **s.meta) for s in hs] + rows(), module="Ledger", norm=faults.ledger)
    return c.finish()


def replay(d):
    bins = drivers(apis=("c",))
    lines = d["script"].splitlines()
    s = Script(lines[0].split(" ", 1)[1], lines[1:])
    r = run_scripts(bins[tuple(d["driver"])], [s], jobs=1)
    norm = faults.ledger if d.get("module") == "Ledger" else normalise
    ev = norm(r[s.id], d.get("meta"))
    v = validate({"x": ev}, d.get("module", "WatchTrace"))["x"]
    for i, e in enumerate(ev):
        print(i + 1, json.dumps(e))
    print(v)
    return 0 if v[0] else 1
