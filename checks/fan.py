"""P22: the privileged facility (on a simulated kernel), judged by FanOracle.tla on behaviours of Fan.tla; and what follows its refusal."""
import random
from gen import *
from check import Check
import core, faults, tree

FAKE = ("-DFAKEFAN",)
FLAT = ["mkd", "mkf", "mod", "rm"]
BADS = ["stale", "staledir", "stalefrom", "staleto", "fd", "info", "short"]
HANDLES = [8, 12, 20, 28, 64, 128]
NORM = {"Ledger": faults.ledger}


def fake():
    return drivers(extra=FAKE)


def fam(name, num, _opts=None, **consts):
    consts.setdefault("MaxPre", 1)
    return dict(name="fan" + name, num=num * (8 if THOROUGH else 1), consts=consts, opts=dict(_opts or {}, mark="fanotify_mark", bads=BADS), depth=60 + 14 * consts["MaxOps"])


EXPLORE = [dict(MaxOps=3, MaxBad=1, MaxLoss=1, Kinds=["mkd", "mkf", "rm"]), dict(MaxOps=3, Kinds=["mkd", "mv"], MaxPre=1, Outside=True),
           dict(MaxOps=3, MaxPre=1, Kinds=["mkd", "rm", "mv"], Gran="walk"), dict(MaxOps=2, MaxPre=2, Kinds=["mkd", "mkf"], Gran="walk", MaxRefuse=1),
           dict(MaxOps=2, MaxPre=3, Kinds=["mkd", "mkf"], Gran="walk", Startup=True)]
DEEP = [dict(MaxOps=4, MaxPre=1, MaxBad=1, Kinds=FLAT), dict(MaxOps=4, MaxPre=1, Kinds=["mkd", "mkf", "mv"], Outside=True), dict(MaxOps=3, MaxPre=3, Kinds=["mkd", "mkf", "rm", "mv"], Gran="walk", Startup=True)]


def streams():
    return [
        fam("flat", 150, dict(odd=.5), MaxOps=9, MaxPre=2, Kinds=FLAT, MaxBatch=5),
        fam("bad", 200, dict(odd=.3), MaxOps=8, MaxPre=2, Kinds=FLAT + ["mv"], MaxBatch=5, MaxBad=2, MaxLoss=1),
        fam("single", 80, MaxOps=7, MaxPre=2, Kinds=FLAT, MaxBatch=1, MaxBad=1),
        fam("burst", 30, dict(odd=1), MaxOps=60, Depth=1, Names=["a", "b", "c", "d", "e", "f"], Kinds=["mkf", "mod", "rm", "mkd"], MaxBatch=60, MaxBad=1),
        fam("start", 100, dict(odd=.3), MaxOps=4, MaxPre=5, Kinds=["mkd", "mkf", "rm", "mv"], Gran="walk", Startup=True),
        fam("new", 120, dict(odd=.3), MaxOps=8, MaxPre=1, Kinds=["mkd", "mkf", "rm"], Depth=3, Gran="walk"),
        fam("newcb", 80, MaxOps=7, MaxPre=1, Kinds=["mkd", "mkf", "rm"], Gran="cb"),
        fam("ren", 150, dict(odd=.4), MaxOps=8, MaxPre=4, Kinds=["mkd", "mkf", "mv", "xch", "rm"], MaxBatch=5),
        fam("renout", 120, dict(odd=.2), MaxOps=8, MaxPre=4, Kinds=["mkd", "mkf", "mv"], Outside=True, MaxBatch=5),
        fam("renwalk", 100, MaxOps=7, MaxPre=4, Kinds=["mkd", "mv", "rm", "mkf"], Gran="walk", Outside=True),
        fam("rencb", 60, MaxOps=6, MaxPre=3, Kinds=["mkd", "mkf", "mv"], Gran="cb"),
        fam("refused", 120, MaxOps=5, MaxPre=3, MaxRefuse=2, Kinds=["mkd", "mkf", "rm"]),
        fam("untyped", 50, dict(odd=.2, untyped=True), MaxOps=3, MaxPre=5, Kinds=["mkd", "mkf"], Gran="walk"),
        fam("quiet", 60, dict(silent=.8), MaxOps=6, MaxPre=3, Kinds=FLAT, MaxBatch=3),
    ]


def sized(scripts):
    """The handles of a filesystem have its own size."""
    for s in scripts:
        s.cmds.insert(0, f"fanh {random.Random(seeded('h', s.id)).choice(HANDLES)}")
    return scripts


def positions():
    """Each kind of bad record, and a loss, at every position of reads of every kind of record."""
    out, n = [], 0
    seqs = [
        ["fs creat r/a", "fs write r/a", "fs mkdir r/d", "fs rename r/a r/b", "fs unlink r/b"],
        ["fs mkdir r/d", "fs mkdir r/d/e", "fs rename r/x r/y", "fs rename r/y/s r/s", "fs rmdir r/d/e"],
        ["fs rename o/f r/f", "fs rename r/x o/x", "fs rename r/f r/g", "fs rename o/d r/d"],
        ["fs rename r/x o/x", "fs creat r/n", "fs rename o/f r/f", "fs mkdir r/m"],
    ]
    for seq in seqs:
        for kind in BADS + ["ovf"]:
            for at in range(2 * len(seq)):
                for q in ("", " n=2", " n=1"):
                    if q and (at + len(kind)) % 3:
                        continue
                    cm = ["fs mkdir r", "fs mkdir o", "fs mkdir r/x", "fs mkdir r/x/s", "fs creat o/f", "fs mkdir o/d", "open 0 r stops=wait", "arrive 0"]
                    cm += seq + [f"ovf 0 {at}" if kind == "ovf" else f"fanbad 0 {kind} {at}", "idle 0" + q]
                    cm += ["fs creat r/last", "fs mkdir r/lastd", "idle 0", "fs creat r/lastd/f", "idle 0", "close 0 0", "cjoin 0"]
                    out.append(Script(f"bad{kind}-{n}", cm))
                    n += 1
    return out


def only_bad():
    """Reads of nothing but bad records, a pile of them, and when nothing was made."""
    out = []
    for n, kinds in enumerate([[k] for k in BADS] + [BADS, BADS * 3, ["fd"] * 40, ["stale", "ovf", "short"]]):
        cm = ["fs mkdir r", "open 0 r stops=wait", "arrive 0"] + [f"ovf 0 {i}" if k == "ovf" else f"fanbad 0 {k} {i}" for i, k in enumerate(kinds)]
        cm += ["idle 0", "fs creat r/f", "idle 0", "close 0 0", "cjoin 0"]
        out.append(Script(f"onlybad-{n}", cm))
    return out


def merged():
    """The system may hand out one record for the creation and the removal of an entry."""
    return [Script(f"merged-{n}", ["fs mkdir r", "open 0 r stops=wait", "arrive 0"] + pre + [f"fanbad 0 merged:{nm} 9", "idle 0", "fs creat r/f", "idle 0", "close 0 0", "cjoin 0"])
            for n, (pre, nm) in enumerate([([], "x"), (["fs creat r/a"], "b"), (["fs mkdir r/a", "fs creat r/a/c"], "x")])]


def faulty():
    """The life of a watcher on the facility when what it can not do without fails, and when calls are interrupted."""
    out, n = [], 0
    errs = {"epoll_create": [24, 12], "epoll_ctl": [28, 12], "epoll_wait": [9, 22], "read": [5, 22], "eventfd": [24, 12]}
    body = ["fs mkdir r", "fs mkdir r/d", "open 0 r stops=wait", "arrive 0", "fs creat r/f", "idle 0", "fs mkdir r/e", "fs creat r/e/g", "idle 0 n=1", "fs rename r/f r/d/f", "idle 0",
            "fs creat r/e/h", "idle 0", "close 0 0", "cjoin 0"]
    for fn, nths in {"epoll_create": [1], "epoll_ctl": [1, 2], "epoll_wait": range(1, 7), "read": range(1, 6), "eventfd": [1]}.items():
        for nth in nths:
            for e in errs[fn]:
                out.append(Script(f"fatal-{n}", [f"fault {fn} 0 {nth} {e}"] + body))
                n += 1
    for fn in ("read", "epoll_wait"):
        for nth in range(1, 7):
            for e in (4, 11) if fn == "read" else (4,):
                out.append(Script(f"transient-{n}", [f"fault {fn} 0 {nth} {e}"] + body))
                n += 1
    return out


def fallback():
    """Where the facility is refused - itself, or for the tree - the ordinary one is used."""
    hs = uniq(simulate("TreeModel", 60 * (8 if THOROUGH else 1), 200, seeded("fallback") % (1 << 31), MaxOps=6, MaxPre=3, Kinds=FLAT + ["mv"], MaxBatch=4))
    out = []
    how = [f"fault fanotify_init 0 1 {e}" for e in (1, 22, 24, 38, 12)] + [f"fault fanotify_mark 0 1 {e}" for e in (95, 18, 19, 22, 28, 12, 2)]
    for i, h in enumerate(hs):
        s = tree_script(f"fallback-{i}", h, rng=random.Random(seeded("fallback", i)), pre=[how[i % len(how)]])
        s.meta["fallback"] = True
        out.append(s)
    return out


def setup():
    fake()


def judge(c, full, judged, bins, scripts, module):
    """Deviations which the recordings showed but which are known: told, not alarms. Others are violations."""
    known = {k.split(":", 1)[0]: k for k in c.known_keys()}
    seen = {}
    for t, v in full.items():
        if v[0] and v[2]:
            for note in v[2]:
                seen.setdefault(note, []).append(t)
    for note, ts in sorted(seen.items()):
        c.cov.setdefault("known_deviations", {})[note] = len(ts)
        if note in known:
            c.known.append(known[note])
        else:
            t = ts[0]
            key, sid = t.split(":", 1)
            s = {x.id: x for x in scripts}[sid]
            c.violation(f"{t}: {note}", dict(driver=key.split("/"), script=s.text(), meta=s.meta, trace=judged[t], why=note, index=0, module=module))


def check(pid):
    c = Check(pid, "model_checking")
    c.rule = ("behaviours of spec/Fan.tla (random walks over operations, scan steps, reads of any size, bad records and losses), replayed on the real watcher over a "
              "simulated fanotify; non-trivial: distinct recordings of more than 200 characters")
    c.assumptions = ["the simulated facility hands out records as fanotify does: metadata, directory handle and name, filtered by the masks of marks, handles resolve to where the directory is"]
    bins = fake()
    c.cov["variants"] = ["/".join(k) for k in bins]
    ex = cf.ThreadPoolExecutor(max_workers=2)
    explored = [ex.submit(explore, "Fan", workers=3, heap="4g", **k) for k in EXPLORE + (DEEP if THOROUGH else [])]
    scripts = sized(families(streams(), "Fan") + positions() + only_bad() + merged() + faulty())
    for s in tree.bulk() + [y for x in ("P06", "P07", "P08") for y in tree.reach(x)] + tree.limits("P22"):
        s.id = "fan" + s.id
        s.cmds.insert(0, f"fanh {random.Random(seeded('h', s.id)).choice(HANDLES)}")
        scripts.append(s)
    for f in explored:
        c.explored(f.result())
    full, judged = c.run_stream(bins, scripts, module="FanTrace")
    judge(c, full, judged, bins, scripts, "FanTrace")
    c.run_stream(bins, fallback())
    leaks = []
    for i, x in enumerate(only_bad() + faulty() + positions()[::7]):
        x.id = "led" + x.id
        x.cmds = [y for y in x.cmds if not str(y).startswith("snap")]
        leaks.append(faults.accounted(x, i))
    c.run_stream(bins, leaks, module="Ledger", norm=faults.ledger)
    return c.finish()


def replay(d):
    b = fake()[tuple(d["driver"])]
    lines = d["script"].splitlines()
    s = Script(lines[0].split(" ", 1)[1], lines[1:])
    norm = NORM.get(d["module"], normalise)
    ev = norm(run_scripts(b, [s], jobs=1)[s.id], d.get("meta"))
    v = validate({"x": ev}, d["module"])["x"]
    for i, e in enumerate(ev):
        print(i + 1, json.dumps(e))
    print(v)
    return 0 if v[0] and not v[2] else 1
