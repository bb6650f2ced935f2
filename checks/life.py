"""P01-P03: the life of a watcher and its closing, judged by Life.tla (in WatchTrace.tla), on the
schedules of Lifecycle.tla: every interleaving of the watching thread, a closing thread and traffic."""
import random
from gen import *
from check import Check

GATES = "start,evr,evr2,mark,mark2,list,list2,wait,read,cb,exit"
PRE = ["fs mkdir r", "fs creat r/f", "fs creat src"]
BAD = {"missing": [], "file": ["fs creat m"], "fifo": ["fs fifo m"], "symfile": ["fs symlink m src"], "symbad": ["fs symrel m nowhere"]}


def life_script(sid, hist, isdir=True, how="close", cb=None, kind="file", gates=GATES, post="close", faults=(), pre=(), meta=None, ask=True):
    """A script that imposes one behaviour of Lifecycle.tla on the real watcher."""
    rng = random.Random(seeded(sid))
    cm = list(PRE) + list(pre)
    root = "r" if isdir else "m"
    if not isdir:
        cm += BAD[kind]
    cm += [f"fault {f}" for f in faults]
    cm += [f"open 0 {root} stops={gates}", "arrive 0"]
    for c in cb or []:
        cm.append("oncb 0 " + c)
    n, csteps, k, last = 0, 0, None, None
    for h in hist:
        c = h["c"]
        if c == "W":
            cm.append(f"go 0 until={gates}" + (f" n={h['n']}" if h["n"] else "") + (" order=1" if h["order"] else ""))
        elif c == "close":
            k = h["k"] + 1
            csteps = 0
            cm.append(f"close {k} 0 stops=evw,evw2" + (" how=destroy" if how == "destroy" and h["k"] == 0 else ""))
        elif c == "C":
            csteps += 1
            cm.append(f"cgo {k} until={'evw,evw2' if csteps == 1 else ''}" if csteps < 3 and h["k"] == 0 else f"cjoin {k}")
            if ask and csteps == 2 and h["k"] == 0:
                cm.append(f"ctry {k} 1")
        elif c == "I":
            if h["k"] == "spurious":
                cm.append(f"go 0 until={gates} spurious=1")
            else:
                fn, en = h["k"].split()
                cm += [f"fault {fn} 0 1 {en}", f"go 0 until={gates}"]
        elif c == "E":
            n += 1
            cm.append(rng.choice([f"fs creat r/e{n}", "fs write r/f", f"fs creat r/e{n}", "fs write r/f", f"fs mkdir r/d{n}"]))
        if how == "destroy" and c == "close" and h["k"] == 1:
            break
    if k is None:
        k = 1
        cm.append("close 1 0" + (" how=destroy" if how == "destroy" else ""))
    for i in range(1, k + 1):
        if how == "destroy" and i > 1:
            break
        cm.append(f"cjoin {i}")
    if how != "destroy":
        if post == "close":
            cm += ["close 8 0", "cjoin 8", "close 9 0", "cjoin 9"]
        elif post == "destroy":
            cm += ["destroy 0"]
    return Script(sid, cm, **(meta or {}))


def from_model(name, num=None, sub=None, _opts=None, **consts):
    """Behaviours, all of them (num=None, or a seeded subset) or random walks."""
    consts = dict(dict(MaxQ=2, Endless=False, MaxClose=1, Dir=True, MaxOps=1, MaxInt=0), **consts)
    if num is None:
        hs = uniq(behaviours("Lifecycle", **consts))
        hs.sort(key=json.dumps)
        if sub and len(hs) > sub:
            hs = random.Random(seeded(name)).sample(hs, sub)
    else:
        hs = uniq(simulate("Lifecycle", num, 120, seeded(name) % (1 << 31), **consts))
    return [life_script(f"{name}-{i}", h, isdir=consts["Dir"], **(_opts(i) if callable(_opts) else _opts or {})) for i, h in enumerate(hs)]


FORM_PRE = ["fs mkdir r", "fs mkdir r/d", "fs creat file", "fs symlink lr r", "fs symrel ld r/d", "fs symlink lf file", "fs symrel bad nowhere", "fs fifo p", "fs mkdir %22q%22", "fs mkdir u%C3%BC%20x"]
FORMS = [  # (argument, absolute form, real directory, cwd)
    ("r", "r", "r", None), ("r/d", "r/d", "r/d", None), ("r/", "r/", "r", None), ("lr", "lr", "r", None), ("lr/", "lr/", "r", None), ("ld", "ld", "r/d", None),
    ("lr/d", "lr/d", "r/d", None), ("=r", "r", "r", "."), ("=d", "r/d", "r/d", "r"), ("=./d", "r/./d", "r/d", "r"), ("=.", "r/.", "r", "r"), ("=../r", "r/../r", "r", "r"),
    ("=d/..", "r/d/..", "r", "r"), ("=r//d", "r//d", "r/d", "."), ("%22q%22", "%22q%22", "%22q%22", None), ("u%C3%BC%20x", "u%C3%BC%20x", "u%C3%BC%20x", None),
    ("nowhere", "nowhere", None, None), ("file", "file", None, None), ("lf", "lf", None, None), ("bad", "bad", None, None), ("p", "p", None, None), ("r/nope", "r/nope", None, None),
    ("file/x", "file/x", None, None), ("=nope", "nope", None, "."), ("=file", "file", None, "."), ("=", "", None, ".")]


def paths():
    """The watched path is given in every form; both messages name its absolute form."""
    out, n = [], 0
    for arg, ab, real, cwd in FORMS:
        for how in ("close", "destroy", "both", "early", "gone"):
            cm = FORM_PRE + ([f"cd {cwd}"] if cwd else [])
            cm += [f"open 0 {arg} abs={ab}" + (f" real={real}" if real else "")  + (" stops=start,cb,wait" if how == "early" else " stops=cb")]
            if how == "early":
                cm += ["arrive 0", "close 1 0 stops=evw", "go 0 until=cb,wait", "cgo 1 until=", "cjoin 1"]
            elif how == "gone":
                cm += ["arrive 0", "fs rmdir r/d", "fs rmdir r", "close 1 0 stops=evw2", "cjoin 1"]
            else:
                cm += ["arrive 0"] + (["go 0 until=cb,wait", "sleep 1"] if how == "both" else [])
            if how in ("close", "both"):
                cm += ["close 1 0", "cjoin 1"]
            if how == "both":
                cm += ["close 2 0", "cjoin 2"]
            cm += ["destroy 0"]
            out.append(Script(f"paths-{n}", cm))
            n += 1
    for arg, ab, real in (("=/", "/", "/"), ("=//", "//", "/"), ("=.", "/.", "/"), ("=r/..", "/r/..", "/"), ("=/r", "/r", "r"), ("=r/", "/r/", "r"), ("=/nope", "/nope", "")):
        for end in ("close 1 0", "destroy 0"):  # from the root of the filesystem
            cm = ["jail"] + FORM_PRE + [f"open 0 {arg} abs={ab}" + (f" real={real}" if real else "") + " stops=cb", "arrive 0", end] + (["cjoin 1", "destroy 0"] if end[0] == "c" else [])
            out.append(Script(f"paths-{n}", cm))
            n += 1
    return out


def restless():
    """Traffic that never ends by itself: from the callbacks, and from outside."""
    out, n = [], 0
    for cb in (["* -1 write r/f"], ["* -1 creat r/x", "* -1 unlink r/x"], ["* -1 mkdir r/y", "* -1 rmdir r/y"], ["* -1 rename r/f r/g", "* -1 rename r/g r/f"]):
        for steps in range(0, 14):
            for quota in ("", " n=1"):
                for order in ("", " order=1"):
                    cm = PRE + [f"open 0 r stops={GATES}", "arrive 0"] + ["oncb 0 " + c for c in cb]
                    cm += [f"go 0 until=wait", "fs write r/f", "fs creat r/h"]
                    cm += [f"go 0 until={GATES}{quota}{order}"] * steps
                    cm += ["close 1 0 stops=evw2"] if n % 3 else ["close 1 0"]
                    cm += [f"go 0 until={GATES}{quota}{order}"] * (n % 5) + ["cjoin 1", "close 2 0", "cjoin 2"]
                    out.append(Script(f"restless-{n}", cm))
                    n += 1
    for ms in (0, 1, 2, 3, 5, 8):
        for k in range(4):
            cm = PRE + ["open 0 r stops=wait", "arrive 0", "storm r/f", f"sleep {k}", "free 0", f"sleep {ms}", "close 1 0" + (" how=destroy" if k == 3 else ""), "cjoin 1", "calm"]
            out.append(Script(f"storm-{n}", cm))
            n += 1
            cm = PRE + ["storm r/f", "open 0 r", f"sleep {ms}", "close 1 0", "cjoin 1", "calm"]
            out.append(Script(f"storm-{n}", cm))
            n += 1
    return out


# the calls whose failure ends a watcher: (function, which call, errno)
FATAL = [("inotify_init", 1, 24), ("epoll_create", 1, 24), ("epoll_ctl", 1, 28), ("epoll_ctl", 2, 12), ("epoll_wait", 1, 9), ("epoll_wait", 2, 22), ("read", 1, 5), ("read", 2, 9), ("eventfd", 1, 24)]
MILD = [("epoll_wait", 1, 4), ("epoll_wait", 2, 4), ("read", 1, 4), ("read", 1, 11)]


def fault_name(f):
    return f"{f[0]} 0 {f[1]} {f[2]}"


def broken(name, num, which, how="close"):
    hs = uniq(simulate("Lifecycle", num, 120, seeded(name) % (1 << 31), MaxQ=2, Endless=False, MaxClose=1 if how == "destroy" else 2, Dir=True, MaxOps=3))
    rng = random.Random(seeded(name, "f"))
    return [life_script(f"{name}-{i}", h, how=how, faults=[fault_name(which[i % len(which)])], gates=rng.choice([GATES, GATES, "start,mark,wait,read,cb,exit"])) for i, h in enumerate(hs)]


def plan(pid):
    m = 8 if THOROUGH else 1
    if pid == "P01":
        return (
            [dict(MaxOps=3, MaxQ=2, Endless=False, MaxClose=2, Dir=True), dict(MaxOps=0, MaxQ=2, Endless=False, MaxClose=3, Dir=False)],
            lambda: from_model("every0", MaxOps=0) + from_model("every0d", MaxOps=0, _opts=dict(how="destroy"))
            + from_model("notdir", MaxOps=0, Dir=False, MaxClose=2, _opts=lambda i: dict(kind=sorted(BAD)[i % len(BAD)]))
            + from_model("one", sub=None if THOROUGH else 400, _opts=lambda i: dict(how="destroy" if i % 4 == 0 else "close", post="destroy" if i % 4 == 1 else "close"))
            + from_model("more", num=220 * m, MaxOps=4, MaxQ=3, _opts=lambda i: dict(cb=[["* 2 creat r/cb", "* 2 unlink r/cb"], None][i % 2]))
            + paths() + broken("brokenlife", 80 * m, FATAL + MILD))
    if pid == "P02":
        return (
            [dict(MaxOps=2, MaxQ=2, Endless=False, MaxClose=3, Dir=True), dict(MaxOps=1, MaxQ=1, Endless=False, MaxClose=3, Dir=False)],
            lambda: from_model("twice0", MaxOps=0, MaxClose=2)
            + from_model("notdir2", MaxOps=0, Dir=False, MaxClose=2, _opts=lambda i: dict(kind=sorted(BAD)[i % len(BAD)]))
            + from_model("twice", num=250 * m, MaxOps=3, MaxQ=3, MaxClose=2)
            + from_model("oneclose", sub=None if THOROUGH else 300, _opts=lambda i: dict(how="destroy" if i % 5 == 0 else "close"))
            + broken("broken", 300 * m, FATAL) + broken("brokend", 80 * m, FATAL, how="destroy") + broken("mild", 80 * m, MILD) + paths())
    return (
        [dict(MaxOps=3, MaxQ=2, Endless=True, MaxClose=2, Dir=True), dict(MaxOps=4, MaxQ=3, Endless=False, MaxClose=1, Dir=True)],
        lambda: from_model("stop0", MaxOps=0)
        + from_model("stop1", sub=None if THOROUGH else 700)
        + from_model("stopbusy", num=250 * m, MaxOps=6, MaxQ=4, _opts=lambda i: dict(cb=[["* -1 write r/f"], ["* -1 creat r/cb", "* -1 unlink r/cb"], None][i % 3], ask=False))
        + from_model("stopnot", MaxOps=0, Dir=False, MaxClose=2, _opts=lambda i: dict(kind=sorted(BAD)[i % len(BAD)]))
        + (from_model("stop2", MaxOps=2) if THOROUGH else []) + restless() + broken("brokenstop", 100 * m, FATAL + MILD))


def setup():
    drivers()


def check(pid):
    c = Check(pid, "model_checking")
    c.rule = ("behaviours of spec/Lifecycle.tla (all of them for small constants, random walks for larger ones) imposed as schedules on the real threads; "
              "non-trivial: distinct recordings of more than 200 characters")
    bins = drivers()
    c.cov["variants"] = ["/".join(k) for k in bins]
    ex, scripts = plan(pid)
    for k in ex:
        c.explored(explore("Lifecycle", **k))
    c.run_stream(bins, scripts(), max_report=3)
    return c.finish()


def replay(d):
    import tree
    return tree.replay(d)
