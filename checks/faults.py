"""P10-P13: refusals, interruptions, announced losses, resources."""
import random
from gen import *
from check import Check
import life
from tree import limits

FLAT = ["mkd", "mkf", "mod", "rm"]
NORM = {"P13": "ledger"}


def ledger(rec, meta=None):
    """The recording as Ledger.tla sees it."""
    out, ended = [], False
    capi = (meta or {}).get("capi")
    for e in rec.ev:
        k = e["e"]
        w = e.get("w", 0) + 1
        if k == "sys":
            fn, a, r = e["fn"], e["a"], e["r"]
            if fn in ("inotify_init", "epoll_create", "eventfd", "fanotify_init", "open_by_handle_at"):
                if r >= 0:
                    out.append({"k": "acq", "fd": r})
            elif fn in ("close", "close_foreign"):
                if a >= 0:
                    out.append({"k": "rel", "fd": a, "ok": r == 0, "foreign": fn == "close_foreign"})
            elif fn in ("opendir", "closedir"):
                out.append({"k": fn, "fd": a})
        elif k in ("tstart", "texit", "open"):
            out.append({"k": k, "w": w})
        elif k == "destroyed" or (capi and k == "closed") or k == "openfail":
            out.append({"k": "gone", "w": w})
        elif k == "snap":
            out.append({"k": "snap", "fds": e["fds"], "tasks": e["tasks"], "objs": e["objs"]})
        elif k in ("hang", "crash", "garbled"):
            out.append({"k": "bad", "what": k if k != "hang" else "hang:" + e.get("what", "")})
            ended = True
        elif k == "end":
            ended = True
    if not ended:
        out.append({"k": "bad", "what": f"died:{rec.code}"})
    return out


def flooded(rec, meta=None):
    """The recording of a real overflow: the flood itself is only counted."""
    class R:
        pass
    r = R()
    r.id, r.code, r.root, r.ev = rec.id, rec.code, rec.root, []
    cbs = recs = 0
    skip = set()
    for e in rec.ev:
        if e["e"] == "cb" and e["p"].rsplit("/", 1)[-1].startswith("flood"):
            cbs += 1
            skip.add(e["n"])
            continue
        if e["e"] == "cbend" and e["n"] in skip:
            continue
        if e["e"] == "batch":
            recs += e["n"] - sum("ovf" in x[1].split("|") for x in e["recs"])
            e = dict(e, recs=[x for x in e["recs"] if not x[3].startswith("flood")])
        if e["e"] == "end" and cbs < recs - meta["others"]:
            r.ev.append({"e": "garbled"})
        r.ev.append(e)
    return normalise(r, meta)


def tree(name, num, _opts=None, **consts):
    consts = dict(dict(MaxPre=2, Kinds=FLAT + ["mv"], MaxOps=6), **consts)
    hs = uniq(simulate("TreeModel", num, 100 + 20 * consts["MaxOps"], seeded(name) % (1 << 31), **consts))
    return [(f"{name}-{i}", h, consts.get("Gran", "batch")) for i, h in enumerate(hs)]


def scripts_of(items, **opts):
    return [tree_script(sid, h, gran=g, rng=random.Random(seeded(sid)), **opts) for sid, h, g in items]


def in_parallel(jobs):
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        return [x for r in ex.map(lambda j: j(), jobs) for x in r]


# ------------------------------------------------------------------ P10
def fatal_everywhere(items, name="fatal"):
    """Every call a watcher can not do without, failing at each of its positions."""
    out = []
    errs = {"inotify_init": [24, 23, 12], "epoll_create": [24, 23, 12], "epoll_ctl": [28, 12], "epoll_wait": [9, 22, 14], "read": [5, 9, 22], "eventfd": [24, 23, 12]}
    n = 0
    for sid, h, g in items:
        for fn, nths in {"inotify_init": [1], "epoll_create": [1], "epoll_ctl": [1, 2], "epoll_wait": range(1, 7), "read": range(1, 6), "eventfd": [1]}.items():
            for nth in nths:
                rng = random.Random(seeded(sid, fn, nth))
                s = tree_script(f"{name}-{n}", h, gran=g, rng=rng, probe=rng.random() < .3)
                s.cmds.insert(0, f"fault {fn} 0 {nth} {rng.choice(errs[fn])}")
                out.append(s)
                n += 1
    return out


def refuse_everything():
    """The tree to watch is refused altogether, with and without directories in it, at every place."""
    out, n = [], 0
    for sub in ([], ["r/a"], ["r/a", "r/b", "r/a/c"]):
        for bad in range(1 << (1 + len(sub))):
            for err in (28, 13, 2):
                dirs = ["r"] + sub
                cm = [f"fs mkdir {d}" for d in dirs] + ["fs creat r/f"] + [f"fault inotify_add_watch 0 0 {err} {d}" for i, d in enumerate(dirs) if bad >> i & 1]
                cm += ["open 0 r stops=wait", "arrive 0", "idle 0"]
                cm += [f"fs creat {d}/x" for d in dirs] + ["idle 0", "close 0 0", "cjoin 0"]
                out.append(Script(f"none-{n}", cm))
                n += 1
    return out


def p10():
    m = 8 if THOROUGH else 1
    fam = [
        lambda: scripts_of(tree("refused", 200 * m, MaxRefuse=2, MaxOps=5, MaxPre=3, Kinds=["mkd", "mkf", "rm"])),
        lambda: scripts_of(tree("refusedmv", 120 * m, MaxRefuse=1, MaxOps=5, MaxPre=3, Kinds=["mkd", "mkf", "mv"])),
        lambda: scripts_of(tree("refused1", 100 * m, MaxRefuse=3, MaxOps=6, MaxPre=1, Kinds=["mkd", "mkf"], Depth=3, MaxBatch=1)),
        lambda: scripts_of(tree("refusedwalk", 100 * m, MaxRefuse=2, MaxOps=4, MaxPre=3, Kinds=["mkd", "mkf"], Gran="walk")),
        lambda: fatal_everywhere(tree("forfatal", 14 * m, MaxOps=4)),
        lambda: fatal_everywhere(tree("forfatal1", 8 * m, MaxOps=5, MaxBatch=1), "fatal1"),
        refuse_everything,
        lambda: life.broken("p10broken", 120 * m, life.FATAL),
        lambda: limits("P10"),
    ]
    return ([("TreeModel", dict(MaxOps=2, MaxPre=1, Kinds=["mkd", "mkf", "rm"], MaxRefuse=2)), ("TreeModel", dict(MaxOps=2, MaxPre=2, Kinds=["mkd", "mv"], MaxRefuse=1))]
            + ([("TreeModel", dict(MaxOps=3, MaxPre=1, Kinds=["mkd", "mkf", "rm"], MaxRefuse=2)), ("TreeModel", dict(MaxOps=2, MaxPre=2, Kinds=["mkd", "mv"], MaxRefuse=1, Gran="walk"))] if THOROUGH else []),
            in_parallel(fam))


# ------------------------------------------------------------------ P11
def interrupted(s, density):
    rng = random.Random(seeded(s.id, "int"))
    cm = []
    for c in s.cmds:
        t = c if isinstance(c, str) else " ".join(c)
        if t.startswith(("go 0", "idle 0")) and rng.random() < density:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.choice(["ewait", "eread", "again", "spur"])
                if k == "ewait":
                    cm.append(f"fault epoll_wait 0 {rng.choice([1, 1, 2])} 4")
                elif k == "eread":
                    cm.append(f"fault read 0 {rng.choice([1, 1, 2])} 4")
                elif k == "again":
                    cm.append(f"fault read 0 1 11")
                else:
                    cm.append("go 0 until=wait spurious=1")
        cm.append(c)
    return Script(s.id, cm, **s.meta)


def p11():
    m = 8 if THOROUGH else 1
    fam = [
        lambda: [interrupted(s, .7) for s in scripts_of(tree("int", 220 * m, MaxOps=7))],
        lambda: [interrupted(s, .5) for s in scripts_of(tree("intmv", 160 * m, MaxOps=6, MaxPre=3, Kinds=["mkd", "mkf", "mv"], Outside=True))],
        lambda: [interrupted(s, 1) for s in scripts_of(tree("int1", 120 * m, MaxOps=6, MaxBatch=1))],
        lambda: life.from_model("intlife", num=250 * m, MaxOps=3, MaxQ=3, MaxInt=3),
        lambda: life.from_model("intlife0", MaxOps=0, MaxInt=2, sub=None if THOROUGH else 300),
    ]
    return ([("Lifecycle", dict(MaxOps=2, MaxQ=2, MaxInt=2, MaxClose=2)), ("Lifecycle", dict(MaxOps=3, MaxQ=2, Endless=True, MaxInt=1, MaxClose=1))], in_parallel(fam))


# ------------------------------------------------------------------ P12
def overflowing(s, density):
    rng = random.Random(seeded(s.id, "ovf"))
    cm = []
    for c in s.cmds:
        t = c if isinstance(c, str) else " ".join(c)
        if t.startswith(("go 0 n=", "idle 0")) and rng.random() < density:
            cm.append(f"ovf 0 {rng.choice([0, 0, 1, 2, 3, 99])}")
        cm.append(c)
    return Script(s.id, cm, **s.meta)


def floods():
    out, n = [], 0
    for more in (0, 1, 300):
        for q in ("", " n=400"):
            cm = ["fs mkdir r", "fs mkdir r/d", "fs mkdir o", "open 0 r stops=wait", "arrive 0", "fs creat r/d/a", f"flood r {16383 + more}", "idle 0" + q,
                  "fs creat r/d/b", "fs creat r/c", "fs mkdir r/e", "idle 0", "fs creat r/e/g", "idle 0", "close 0 0", "cjoin 0"]
            out.append(Script(f"flood-{n}", cm, others=5))
            n += 1
    return out


def p12():
    m = 8 if THOROUGH else 1
    fam = [
        lambda: [overflowing(s, .6) for s in scripts_of(tree("ovf", 220 * m, MaxOps=7, Kinds=FLAT))],
        lambda: [overflowing(s, .5) for s in scripts_of(tree("ovfmv", 180 * m, MaxOps=6, MaxPre=3, Kinds=["mkf", "mv", "mkd"], Depth=2))],
        lambda: [overflowing(s, .8) for s in scripts_of(tree("ovf1", 140 * m, MaxOps=6, MaxBatch=2))],
        lambda: [overflowing(s, .5) for s in scripts_of(tree("ovfcb", 80 * m, MaxOps=6, Kinds=FLAT, Gran="cb"))],
    ]
    return [("TreeModel", dict(MaxOps=3, MaxPre=1, Kinds=["mkf", "mkd", "mv"], MaxLoss=1)), ("TreeModel", dict(MaxOps=3, MaxPre=0, Kinds=FLAT, MaxLoss=2))], in_parallel(fam)


# ------------------------------------------------------------------ P13
def accounted(s, i):
    cm = [c if isinstance(c, str) else " ".join(c) for c in s.cmds]
    opens = sorted({c.split()[1] for c in cm if c.startswith("open ")})
    dead = {c.split()[1] for c in cm if c.startswith("destroy ")} | {c.split()[2] for c in cm if c.startswith("close ") and "how=destroy" in c}
    cm = ["logsys", "snap"] + cm + [f"destroy {w}" for w in opens if w not in dead] + ["snap"]
    return Script(s.id, cm, **s.meta)


def in_a_row():
    """Many watchers, one after another, in one process."""
    out, n = [], 0
    for bad in (None, "inotify_init 24", "epoll_create 24", "epoll_ctl 28", "eventfd 24", "inotify_add_watch 28", "opendir 24"):
        for early in (False, True):
            cm = ["fs mkdir r", "fs mkdir r/d", "fs mkdir r/d/e"]
            for w in range(18):
                if bad and w % 4 != 3:
                    fn, err = bad.split()
                    cm.append(f"fault {fn} {w} 1 {err}")
                cm += [f"open {w} {'r' if w % 5 else 'nope'} stops={'start' if early else 'wait'}", f"arrive {w}"]
                cm += [f"fs creat r/d/f{w}", f"fs mkdir r/g{w}"] + ([f"idle {w}"] if not early else [])
                cm += [f"close {w} {w}", f"cjoin {w}"] if w % 3 else []
                cm += [f"destroy {w}", "snap"]
            out.append(Script(f"row-{n}", cm))
            n += 1
    return out


def p13():
    m = 8 if THOROUGH else 1
    allf = life.FATAL + [("inotify_add_watch", 1, 28), ("inotify_add_watch", 1, 13), ("opendir", 1, 24), ("eventfd_write", 1, 11)][:3]
    fam = [
        lambda: life.from_model("led", sub=500 * m, _opts=lambda i: dict(how=["close", "destroy"][i % 2])),
        lambda: life.from_model("led0", MaxOps=0, MaxClose=1, _opts=lambda i: dict(how=["close", "destroy"][i % 2])),
        lambda: life.from_model("lednot", MaxOps=0, Dir=False, MaxClose=2, _opts=lambda i: dict(kind=sorted(life.BAD)[i % len(life.BAD)])),
        lambda: life.broken("ledbroken", 200 * m, allf) + life.broken("ledbrokend", 100 * m, allf, how="destroy"),
        lambda: scripts_of(tree("ledtree", 150 * m, MaxOps=6, MaxPre=3, Kinds=["mkd", "mkf", "mv", "rm"], Outside=True)),
        lambda: scripts_of(tree("ledref", 80 * m, MaxRefuse=3, MaxOps=4, MaxPre=3, Kinds=["mkd", "rm"])),
        lambda: fatal_everywhere(tree("ledfatal", 6 * m, MaxOps=4)),
        in_a_row,
    ]
    return [("Lifecycle", dict(MaxOps=3, MaxQ=2, MaxClose=2))], [accounted(s, i) for i, s in enumerate(in_parallel(fam))]


def setup():
    drivers()


def check(pid):
    c = Check(pid, "model_checking" if pid == "P12" else "fault_enumeration")
    bins = drivers()
    c.cov["variants"] = ["/".join(k) for k in bins]
    ex, scripts = {"P10": p10, "P11": p11, "P12": p12, "P13": p13}[pid]()
    for mod, k in ex:
        c.explored(explore(mod, **k))
    c.rule = {
        "P10": "every call refused at every position of behaviours of TreeModel.tla/Lifecycle.tla, and every small set of refused directories (MaxRefuse)",
        "P11": "interruptions, empty wake-ups and reads that would block at random and (Lifecycle.tla) enumerated positions of behaviours",
        "P12": "announced losses at random positions of behaviours of TreeModel.tla, and real overflows of the system's queue",
        "P13": "all acquisitions and releases over schedules of Lifecycle.tla and TreeModel.tla, with and without failing calls, judged by Ledger.tla",
    }[pid] + "; non-trivial: distinct recordings of more than 200 characters"
    if pid == "P13":
        c.run_stream(bins, scripts, module="Ledger", norm=ledger)
    else:
        c.run_stream(bins, scripts)
    if pid == "P12":
        c.run_stream(bins, floods(), norm=flooded, timeout_ms=15000)
    return c.finish()


def replay(d):
    bins = drivers()
    lines = d["script"].splitlines()
    s = Script(lines[0].split(" ", 1)[1], lines[1:])
    r = run_scripts(bins[tuple(d["driver"])], [s], jobs=1)
    norm = ledger if d.get("module") == "Ledger" else flooded if s.id.startswith("flood") else normalise
    ev = norm(r[s.id], d.get("meta"))
    v = validate({"x": ev}, d.get("module", "WatchTrace"))["x"]
    for i, e in enumerate(ev):
        print(i + 1, json.dumps(e))
    print(v)
    return 0 if v[0] else 1
