"""P23: the watcher which polls, judged by PollOracle.tla (in PollTrace.tla) on behaviours of Poll.tla: changes between its looks
at the tree and during them. Built as on a system without any other facility, and as chosen on this one."""
import random
from gen import *
from check import Check
import core

S = "stat,list,list2,cb,wait"
PLAIN = ("-DPOLL",)
CHOSEN = ("-DPOLL", "-DWATER_WATCHER_USE_WARTHOG")
ALL = ["mkd", "mkf", "mod", "rm", "mv"]


def both():
    jobs = {}
    for v in core.VARIANTS:
        jobs[(v, "poll")] = driver_job(v, extra=PLAIN)
    jobs[("amalgam", "chosen")] = driver_job("amalgam", extra=CHOSEN)
    outs = build_many(list(jobs.values()))
    return {k: outs[j[0]] for k, j in jobs.items()}


def polled(rec, meta=None):
    ev = []
    for e in rec.ev:
        k = e["e"]
        x = None
        if k == "op":
            if not e["ok"]:
                continue
            o, p, q = e["op"], latin(e["p"]).split("/"), [c for c in latin(e["q"]).split("/") if c]
            d = {"p": p, "q": q, "kind": "", "ver": e["ver"], "k": "op"}
            if o == "link" or (o == "symlink" and q == ["src"]):
                x = dict(d, op="link")
            elif o in core.MK:
                x = dict(d, op="mk", kind={"mkdir": "dir", "creat": "file"}.get(o, "oth"))
            elif o in core.MOD or o == "utime":
                x = dict(d, op="mod")
            elif o in ("unlink", "rmdir"):
                x = dict(d, op="rm")
            elif o in ("rename", "xchg"):
                x = dict(d, op="mv" if o == "rename" else "xch")
            else:
                x = {"k": "nop"}
        elif k in ("scanbegin", "scanend"):
            x = {"k": k[4:], "w": e["w"] + 1}
        elif k == "fault":
            x = {"k": "fault", "w": e["w"] + 1}
        ev.append({"e": "asis", "x": x} if x else e)
    return [e for e in normalise(core.Recording(rec.id, rec.code, rec.root, ev), meta) if e["k"] != "ready"]


def poll_script(sid, hist, gran="scan", odd=0.0, silent=0.0, rng=None, fine=3):
    rng = rng or random.Random(seeded(sid))
    nm = Namer(rng, rng.random() < odd)
    nm.map["gone"] = "gone"
    ops = [h for h in hist if h["c"] == "op"]
    links = not any(o["op"] in ("mv", "xch") for o in ops)
    cm = ["fs mkdir r", "fs mkdir o", "fs mkdir away", "fs creat away/f", "fs creat src"]
    closed = False
    known = [["r"]]

    def op(h):
        p, q = enc(nm.path(h["p"])), enc(nm.path(h["q"]))
        k = h["op"]
        if k == "mk":
            kind = h["kind"]
            if kind == "dir":
                return ["fs", "mkdir", p]
            if kind == "oth":
                v = rng.choice(["fifo", "symdir", "symbad"])
                return ["fs", "fifo", p] if v == "fifo" else ["fs", "symlink", p, "away" if v == "symdir" else "nowhere"]
            v = rng.choice(["creat"] * 4 + (["link", "symlink"] if links else []))
            return ["fs", v, p] + (["src"] if v != "creat" else [])
        if k == "mod":
            return ["fs", rng.choice(["write", "write", "trunc", "otrunc", "utime"]), p]
        if k == "rm":
            return ["fs", "rmdir" if h["kind"] == "dir" else "unlink", p]
        return ["fs", "rename" if k == "mv" else "xchg", p, q]

    for h in hist:
        c = h["c"]
        if c == "op":
            cm.append(op(h))
            known.append(h["q"] or h["p"])
            if silent and rng.random() < silent:
                cm.append(rng.choice([["fs", rng.choice(["chmod", "stat", "readf", "openw", "lsdir"]), enc(nm.path(rng.choice(known)))], "fs write away/f", "fs creat away/g", "fs unlink away/g"]))
        elif c == "open":
            cm += [f"open 0 r stops={S if gran == 'step' else 'wait'}", "arrive 0"]
        elif c == "step":
            cm += [f"go 0 until={S}"] * rng.randint(1, fine)
        elif c == "scan":
            if not (closed and gran == "scan"):
                cm.append(f"go 0 until={S if gran == 'step' else 'wait'}")
        elif c == "rest" and gran == "step" and not closed:
            cm.append("go 0 until=wait")
        elif c == "close":
            cm.append("close 0 0" + rng.choice(["", " how=destroy"]))
            closed = True
    if closed:
        return Script(sid, cm + ["cjoin 0"], gran=gran)
    cm.append("idle 0")
    dirs = final_dirs([dict(h, dir=h["kind"] == "dir") if h["c"] == "op" else h for h in hist])
    for d in dirs:
        cm.append(["fs", "creat", enc(nm.path(d) + "/probe")])
    cm.append("idle 0")
    for d in dirs:
        cm.append(["fs", "unlink", enc(nm.path(d) + "/probe")])
    cm += ["idle 0", "close 0 0", "cjoin 0", "close 1 0", "cjoin 1"]
    return Script(sid, cm, gran=gran)


def fam(name, num, _opts=None, **consts):
    consts = dict(dict(MaxPre=2, MaxScans=4), **consts)
    return dict(name="poll" + name, num=num * (8 if THOROUGH else 1), consts=consts, opts=_opts or {})


def streams():
    return [
        fam("flat", 150, dict(odd=.5, silent=.2), MaxOps=9, Kinds=["mkd", "mkf", "mko", "mod", "rm"], MaxScans=6),
        fam("ren", 150, dict(odd=.3), MaxOps=9, MaxPre=4, Kinds=ALL, MaxScans=5),
        fam("renout", 150, dict(odd=.3, silent=.3), MaxOps=9, MaxPre=4, Kinds=ALL + ["xch"], Outside=True, MaxScans=5),
        fam("kinds", 100, MaxOps=12, Depth=1, Kinds=["mkd", "mkf", "mko", "rm", "mv", "xch"], MaxScans=6),
        fam("deep", 80, dict(odd=.3), MaxOps=12, MaxPre=5, Depth=4, Kinds=ALL, MaxScans=4),
        fam("wide", 40, dict(odd=1), MaxOps=50, Names=["a", "b", "c", "d", "e", "f"], Depth=1, Kinds=["mkf", "mod", "rm", "mkd"], MaxScans=6),
        fam("step", 250, dict(odd=.2), MaxOps=8, MaxPre=4, Kinds=ALL, Gran="step"),
        fam("stepx", 200, MaxOps=8, MaxPre=5, Kinds=ALL + ["xch", "mko"], Gran="step", Outside=True),
        fam("stepkind", 150, MaxOps=9, MaxPre=3, Depth=1, Kinds=["mkd", "mkf", "mko", "rm", "mod"], Gran="step"),
        fam("start", 100, MaxOps=4, MaxPre=6, Kinds=ALL, Gran="step", MaxScans=2),
        fam("root", 80, MaxOps=5, MaxPre=3, Kinds=["mkd", "mkf", "mod"], RootGoes=True),
        fam("rootstep", 80, MaxOps=5, MaxPre=3, Kinds=["mkf", "rm"], RootGoes=True, Gran="step"),
        fam("close", 80, MaxOps=5, MaxPre=3, Kinds=ALL, Closing=True, MaxScans=3),
        fam("closestep", 150, MaxOps=5, MaxPre=3, Kinds=ALL, Closing=True, Gran="step", MaxScans=3),
    ]


def from_model():
    def one(f):
        return uniq(simulate("Poll", f["num"], 90 + 14 * f["consts"]["MaxOps"], seeded(f["name"]) % (1 << 31), **f["consts"]))
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        res = list(ex.map(one, streams()))
    return [poll_script(f"{f['name']}-{i}", h, gran=f["consts"].get("Gran", "scan"), **f["opts"]) for f, hs in zip(streams(), res) for i, h in enumerate(hs)]


PRE = ["fs mkdir r", "fs creat src", "fs mkdir r/a", "fs creat r/a/f", "fs mkdir r/a/b", "fs creat r/a/b/g", "fs creat r/h"]
TURN = ["fs write r/h", "fs unlink r/a/f", "fs creat r/a/n", "fs rename r/a/b r/c", "fs mkdir r/a/b"]


def closings():
    """Asked to close at every single moment of looks which find nothing, and of looks which find changes."""
    out = []
    for k in list(range(0, 90, 2 if THOROUGH else 4)):
        for how in ("", " how=destroy"):
            for turn in ([], TURN):
                cm = PRE + [f"open 0 r stops={S}", "arrive 0"]
                if turn:
                    cm += ["go 0 until=wait"] + turn
                cm += [f"go 0 until={S}"] * k + ["close 0 0" + how] + [f"go 0 until={S}"] * 3 + ["cjoin 0"]
                out.append(Script(f"asked-{len(out)}", cm))
    for i in range(6):
        out.append(Script(f"busy-{i}", PRE + ["open 0 r stops=wait", "arrive 0", "free 0", "storm r/h", f"sleep {i}", "close 0 0", "cjoin 0", "calm"]))
    return out


def blind():
    """Directories which can not be looked into, in each place."""
    out = []
    for nth in range(1, 14):
        for e in (13, 24, 2, 5):
            cm = PRE + [f"fault openat 0 {nth} {e}", "open 0 r stops=wait", "arrive 0"] + TURN + ["go 0 until=wait", "fs write r/h", "fs unlink r/a/n", "go 0 until=wait", "fs creat r/a/o", "idle 0",
                                                                                      "fs creat r/c/p", "fs mkdir r/a/b/q", "idle 0", "close 0 0", "cjoin 0"]
            out.append(Script(f"blind-{len(out)}", cm))
    return out


def incb():
    """Changes made by the callback which is told of others."""
    out = []
    for sfx, times, op in [("/f", 1, "creat r/z"), ("/f", 1, "unlink r/a/f"), ("*", 2, "write r/h"), ("/n", 1, "rename r/a r/y"), ("/b", 1, "rmdir r/a/b"), ("/h", 2, "unlink r/h"), ("/h", 1, "rename r/h r/a/n")]:
        for turn in (TURN, TURN[::-1], ["fs unlink r/a/f", "fs creat r/a/n"], ["fs rename r/a r/x"]):
            out.append(Script(f"incb-{len(out)}", PRE + ["open 0 r stops=wait", "arrive 0", f"oncb 0 {sfx} {times} {op}"] + turn + ["go 0 until=wait", "idle 0", "fs creat r/last", "idle 0", "close 0 0", "cjoin 0"]))
    return out


def ends():
    """What is not there, is no directory, or goes away for good, and things in its place."""
    out = []
    for pre, path in [(["fs mkdir r"], "m"), (["fs creat m"], "m"), (["fs fifo m"], "m"), (["fs mkdir r", "fs symlink m r", "fs creat r/f"], "m"), (["fs symrel m nowhere"], "m")]:
        if path == "m" and "symlink" in " ".join(pre):
            continue
        out.append(Script(f"ends-{len(out)}", pre + [f"open 0 {path} stops=", "cjoin 0" if False else "wdone 0", "close 0 0", "cjoin 0"]))
    for gone in (["fs rmdir r"], ["fs rename r s"], ["fs rmdir r", "fs creat r"], ["fs rmdir r", "fs mkdir r", "fs creat r/f"], ["fs rename r s", "fs mkdir r", "fs creat r/g"]):
        for pre in ([], ["fs creat r/f"], ["fs creat r/f", "fs mkdir r/d", "fs creat r/d/e"]):
            if pre and "rmdir" in gone[0]:
                gone2 = ["fs unlink r/d/e", "fs rmdir r/d"][: 2 if len(pre) > 1 else 0] + ["fs unlink r/f"] + gone
            else:
                gone2 = gone
            out.append(Script(f"ends-{len(out)}", ["fs mkdir r"] + pre + ["open 0 r stops=wait", "arrive 0"] + gone2 + ["idle 0", "close 0 0", "cjoin 0"]))
    return out


EXPLORE = [dict(MaxOps=3, MaxPre=2), dict(MaxOps=3, MaxPre=1, Gran="step", Kinds=["mkd", "mkf", "mod", "rm"], Depth=1, MaxScans=3),
           dict(MaxOps=2, MaxPre=1, Gran="step", Kinds=["mkd", "mkf", "mv"], Outside=True, MaxScans=2),
           dict(MaxOps=3, MaxPre=1, Gran="step", Kinds=["mkf", "rm"], RootGoes=True, Depth=1), dict(MaxOps=2, MaxPre=1, Gran="step", Kinds=["mkd", "mkf", "rm"], Closing=True, MaxScans=2)]
DEEP = [dict(MaxOps=3, MaxPre=2, Gran="step", Kinds=ALL, Depth=1, MaxScans=3), dict(MaxOps=2, MaxPre=2, Gran="step", Kinds=["mkd", "mkf", "mv", "xch"], Outside=True, MaxScans=2), dict(MaxOps=4, MaxPre=2, Kinds=ALL)]


def setup():
    both()


def check(pid):
    c = Check(pid, "model_checking")
    c.rule = "behaviours of spec/Poll.tla (random walks over changes and the steps of each look), replayed on the real polling backend; non-trivial: distinct recordings of more than 200 characters"
    c.assumptions = ["changes have modification times of their own (set by the driver right after each change)", "directories and hard links are not modified through other paths than those of the script"]
    bins = both()
    c.cov["variants"] = ["/".join(k) for k in bins]
    ex = cf.ThreadPoolExecutor(max_workers=2)
    explored = [ex.submit(explore, "Poll", workers=3, heap="4g", **k) for k in EXPLORE + (DEEP if THOROUGH else [])]
    scripts = from_model() + closings() + blind() + incb() + ends()
    for f in explored:
        c.explored(f.result())
    c.run_stream(bins, scripts, module="PollTrace", norm=polled)
    return c.finish()


def replay(d):
    b = both()[tuple(d["driver"])]
    lines = d["script"].splitlines()
    s = Script(lines[0].split(" ", 1)[1], lines[1:])
    ev = polled(run_scripts(b, [s], jobs=1)[s.id], d.get("meta"))
    v = validate({"x": ev}, "PollTrace")["x"]
    for i, e in enumerate(ev):
        print(i + 1, json.dumps(e))
    print(v)
    return 0 if v[0] else 1
