"""P04-P09: the stream of events of one watcher, judged by Oracle.tla, on behaviours of TreeModel.tla."""
from gen import *
from check import Check

FLAT = ["mkd", "mkf", "mod", "rm"]
ALL = FLAT + ["mv"]


def fam(name, num, _opts=None, **consts):
    consts.setdefault("MaxPre", 1)
    return dict(name=name, num=num * (8 if THOROUGH else 1), consts=consts, opts=_opts or {}, depth=60 + 14 * consts["MaxOps"])


PLAN = {
    "P04": dict(
        explore=[dict(MaxOps=3, Kinds=FLAT), dict(MaxOps=5, MaxPre=1, Kinds=["mkf", "mod", "rm"], Depth=1)],
        deep=[dict(MaxOps=5, MaxPre=1, Kinds=FLAT)],
        fams=lambda: [
            fam("flat", 260, dict(odd=.5), MaxOps=9, MaxPre=2, Kinds=FLAT, MaxBatch=4),
            fam("single", 120, dict(odd=.3), MaxOps=7, MaxPre=2, Kinds=FLAT, MaxBatch=1),
            fam("files", 160, dict(odd=.5), MaxOps=10, Depth=1, Names=["a", "b", "c"], Kinds=["mkf", "mod", "rm"], MaxBatch=7),
            fam("burst", 60, dict(odd=1), MaxOps=60, Depth=1, Names=["a", "b", "c", "d", "e", "f"], Kinds=["mkf", "mod", "rm", "mkd"], MaxBatch=60),
            fam("incb", 80, MaxOps=6, Kinds=FLAT, Gran="cb"),
        ]),
    "P05": dict(
        explore=[dict(MaxOps=3, MaxPre=2, Kinds=["mkf", "mv", "mod"], MaxBatch=4, MaxWeave=1, Names=["a", "b"], Depth=1, Outside=True), dict(MaxOps=3, MaxPre=2, Kinds=["mkf", "mv", "rm"], Depth=1, Outside=True), dict(MaxOps=3, MaxPre=1, Kinds=["mkd", "mkf", "mv", "xch"])],
        deep=[dict(MaxOps=4, MaxPre=2, Kinds=["mkf", "mv", "xch", "mkd"])],
        fams=lambda: [
            fam("renf", 220, dict(odd=.4), MaxOps=8, MaxPre=3, Kinds=["mkf", "mv", "xch", "rm"], Depth=1, Outside=True, MaxBatch=5),
            fam("rend", 200, dict(odd=.3), MaxOps=7, MaxPre=4, Kinds=["mkd", "mkf", "mv", "rm"], MaxBatch=4),
            fam("ren1", 140, MaxOps=6, MaxPre=3, Kinds=["mkf", "mv", "xch"], Depth=1, Outside=True, MaxBatch=1),
            fam("renbig", 50, dict(odd=1), MaxOps=40, MaxPre=4, Kinds=["mkf", "mv", "xch", "rm"], Depth=1, Names=["a", "b", "c"], MaxBatch=60),
            fam("rencb", 80, MaxOps=6, MaxPre=2, Kinds=["mkd", "mkf", "mv", "xch"], Gran="cb"),
            fam("renweave", 500, dict(odd=.2, woven=True), MaxOps=8, MaxPre=4, Kinds=["mkf", "mv", "mod", "rm"], MaxBatch=8, MaxWeave=3),
            fam("renweavex", 400, dict(woven=True), MaxOps=8, MaxPre=4, Kinds=["mkf", "mv", "xch"], MaxBatch=8, MaxWeave=3),
        ]),
    "P06": dict(
        explore=[dict(MaxOps=3, MaxPre=2, Kinds=["mkd", "rm"], Gran="walk", Startup=True), dict(MaxOps=2, MaxPre=3, Kinds=["mkd", "mkf"], Gran="walk", Startup=True)],
        deep=[dict(MaxOps=3, MaxPre=3, Kinds=["mkd", "mkf", "rm", "mv"], Gran="walk", Startup=True)],
        fams=lambda: [
            fam("start", 260, dict(odd=.3), MaxOps=4, MaxPre=4, Kinds=["mkd", "mkf", "rm"], Gran="walk", Startup=True),
            fam("deep", 120, MaxOps=3, MaxPre=7, Kinds=["mkd"], Depth=4, Gran="walk", Startup=True),
            fam("startmv", 160, MaxOps=4, MaxPre=5, Kinds=["mkd", "mkf", "mv"], Gran="walk", Startup=True, Outside=True),
            fam("wide", 60, dict(odd=1), MaxOps=2, MaxPre=16, Kinds=["mkd", "mkf"], Names=["a", "b", "c", "d"], Gran="walk", Startup=True),
            fam("untyped", 120, dict(odd=.2, untyped=True), MaxOps=3, MaxPre=5, Kinds=["mkd", "mkf"], Gran="walk"),
        ]),
    "P07": dict(
        explore=[dict(MaxOps=4, Kinds=["mkd", "rm"]), dict(MaxOps=3, Kinds=["mkd", "mkf", "rm"], Gran="walk"), dict(MaxOps=3, MaxPre=1, Kinds=["mkd", "mv"], Outside=True)],
        deep=[dict(MaxOps=5, Kinds=["mkd", "mkf", "rm"]), dict(MaxOps=4, MaxPre=1, Kinds=["mkd", "mv", "mkf"], Outside=True)],
        fams=lambda: [
            fam("new", 200, dict(odd=.3), MaxOps=8, MaxPre=1, Kinds=["mkd", "mkf", "rm"], Depth=3, MaxBatch=4),
            fam("newwalk", 180, MaxOps=7, MaxPre=1, Kinds=["mkd", "mkf", "rm"], Gran="walk"),
            fam("newcb", 180, MaxOps=7, MaxPre=1, Kinds=["mkd", "mkf", "rm"], Gran="cb"),
            fam("in", 160, MaxOps=7, MaxPre=4, Kinds=["mkd", "mkf", "mv"], Outside=True, Gran="walk"),
        ]),
    "P08": dict(
        explore=[dict(MaxOps=3, MaxPre=1, Kinds=["mkd", "mv", "mkf"], MaxBatch=5, MaxWeave=1), dict(MaxOps=3, MaxPre=2, Kinds=["mkd", "mv", "mkf"]), dict(MaxOps=3, MaxPre=1, Kinds=["mkd", "mv", "rm"], Outside=True)],
        deep=[dict(MaxOps=3, MaxPre=2, Kinds=["mkd", "mv", "mkf"], MaxBatch=6, MaxWeave=2), dict(MaxOps=4, MaxPre=2, Kinds=["mkd", "mv", "xch", "mkf"]), dict(MaxOps=4, MaxPre=1, Kinds=["mkd", "mv", "mkf"], Outside=True)],
        fams=lambda: [
            fam("dren", 240, dict(odd=.3), MaxOps=8, MaxPre=4, Kinds=["mkd", "mkf", "mv"], MaxBatch=5),
            fam("dout", 200, dict(odd=.2), MaxOps=8, MaxPre=3, Kinds=["mkd", "mkf", "mv"], Outside=True, MaxBatch=5),
            fam("dxch", 160, MaxOps=7, MaxPre=4, Kinds=["mkd", "mkf", "mv", "xch"], MaxBatch=5),
            fam("dwalk", 120, MaxOps=6, MaxPre=3, Kinds=["mkd", "mv", "rm", "xch"], Gran="walk"),
            fam("dcb", 80, MaxOps=6, MaxPre=3, Kinds=["mkd", "mkf", "mv"], Gran="cb"),
            fam("dweave", 800, dict(odd=.2, woven=True), MaxOps=6, MaxPre=4, Kinds=["mkd", "mv"], MaxBatch=9, MaxWeave=2),
            fam("dweavex", 400, dict(woven=True), MaxOps=6, MaxPre=4, Kinds=["mkd", "mkf", "mv", "rm"], MaxBatch=9, MaxWeave=2),
            fam("dweaveo", 400, dict(woven=True), MaxOps=6, MaxPre=4, Kinds=["mkd", "mkf", "mv"], Names=["a", "b", "c"], Outside=True, MaxBatch=9, MaxWeave=3),
        ]),
    "P09": dict(
        explore=[dict(MaxOps=4, MaxPre=1, Kinds=["mkd", "rm", "mkf"]), dict(MaxOps=3, MaxPre=1, Kinds=["mkd", "mv", "rm"], Outside=True)],
        deep=[dict(MaxOps=5, MaxPre=1, Kinds=["mkd", "rm", "mkf"]), dict(MaxOps=4, MaxPre=1, Kinds=["mkd", "mv", "rm"], Outside=True)],
        fams=lambda: [
            fam("quiet", 240, dict(odd=.3, silent=.8), MaxOps=7, MaxPre=3, Kinds=FLAT, MaxBatch=3),
            fam("quietmv", 160, dict(odd=.2, silent=.6), MaxOps=7, MaxPre=3, Kinds=ALL, Outside=True, MaxBatch=3),
            fam("gone", 160, dict(silent=.2), MaxOps=9, MaxPre=4, Kinds=["mkd", "rm"], MaxBatch=1),
            fam("gonemv", 120, dict(silent=.2), MaxOps=8, MaxPre=4, Kinds=["mkd", "rm", "mv"], MaxBatch=2),
        ]),
}


def links(pid):
    """Symbolic links of every kind in and out of the tree, before and after the start; the removal of the watched path."""
    out = []
    n = 0
    for when in ("before", "after"):
        for target in ("away", "../away", "away/inner", ".", "nowhere", "r/d", "src"):
            for kind in ("symlink", "symrel"):
                for batch in ("", " n=1"):
                    pre = ["fs mkdir r", "fs mkdir r/d", "fs mkdir away", "fs mkdir away/inner", "fs creat src"]
                    ln = [f"fs {kind} r/l {target}", f"fs {kind} r/d/l {target}"]
                    cm = pre + (ln if when == "before" else []) + ["open 0 r stops=wait", "arrive 0"]
                    cm += (ln + ["idle 0" + batch] if when == "after" else [])
                    cm += ["fs creat away/f", "fs write away/f", "fs mkdir away/sub", "fs creat away/inner/g", "fs write src", "idle 0",
                           "fs creat away/sub/h", "fs creat r/d/own", "idle 0" + batch, "fs unlink r/l", "fs unlink r/d/l", "idle 0" + batch,
                           "fs unlink away/f", "fs rename away/sub away/sub2", "fs creat r/d/own2", "idle 0", "close 0 0", "cjoin 0"]
                    out.append(Script(f"{pid}links-{n}", cm))
                    n += 1
    for sub in (False, True):
        for batch in ("", " n=1"):
            for re in (False, True):
                cm = ["fs mkdir r"] + (["fs mkdir r/d"] if sub else []) + ["open 0 r stops=wait", "arrive 0"]
                cm += (["fs rmdir r/d"] if sub else []) + ["fs rmdir r", "idle 0" + batch] + (["fs mkdir r", "fs creat r/f", "fs mkdir r/e", "idle 0" + batch] if re else [])
                cm += ["close 0 0", "cjoin 0"]
                out.append(Script(f"{pid}root-{n}", cm))
                n += 1
    return out


def forms():
    """Events of a watcher whose path was given in every form: under the resolved path."""
    from life import FORMS, FORM_PRE
    out = []
    for n, (arg, ab, real, cwd) in enumerate(f for f in FORMS if f[2]):
        for late in (False, True):
            cm = FORM_PRE + ([f"cd {cwd}"] if cwd else []) + [f"fs mkdir {real}/s", f"fs mkdir {real}/s/t", f"open 0 {arg} abs={ab} real={real} stops=wait", "arrive 0"]
            if late:
                cm += ["cd /"]
            for d in (real, real + "/s", real + "/s/t"):
                cm += [f"fs creat {d}/f1", f"fs write {d}/f1", f"fs mkdir {d}/d1", "idle 0", f"fs creat {d}/d1/g", f"fs rename {d}/f1 {d}/d1/h", f"fs rename {d}/d1 {d}/d2",
                       "idle 0", f"fs unlink {d}/d2/h", f"fs unlink {d}/d2/g", f"fs rmdir {d}/d2", "idle 0"]
            cm += ["close 0 0", "cjoin 0"]
            out.append(Script(f"forms-{2 * n + late}", cm))
    return out


def rooted(pid):
    """The watched directory is the root of the filesystem, however its name is spelled: events under the paths below it."""
    out = []
    for n, (arg, ab) in enumerate((("=/", "/"), ("=//", "//"), ("=/.", "/."), ("=/d/..", "/d/.."), ("=.", "/."), ("=lr", "/lr"))):
        for batch in ("", " n=1"):
            cm = ["jail", "fs mkdir d", "fs mkdir d/e", "fs mkdir ds", "fs creat d/f", "fs symlink lr /", f"open 0 {arg} abs={ab} real=/ stops=wait", "arrive 0"]
            cm += ["fs creat f1", "fs write f1", "fs mkdir n", "idle 0" + batch, "fs creat n/g", "fs mkdir n/m", "fs write d/f", "idle 0" + batch, "fs creat n/m/h",
                   "fs rename f1 d/e/f2", "idle 0" + batch, "fs rename n d/n", "fs creat d/n/m/i", "idle 0" + batch, "fs creat d/n/m/j", "fs rename d/n nn", "idle 0" + batch,
                   "fs creat nn/m/k", "fs rename d x", "fs creat ds/o", "idle 0" + batch, "fs creat x/e/p", "fs xchg x nn", "idle 0" + batch, "fs creat x/m/q", "fs creat nn/e/q",
                   "fs unlink ds/o", "fs rmdir ds", "idle 0" + batch, "fs mkdir ds", "fs creat ds/o", "idle 0" + batch, "fs creat ds/oo", "idle 0" + batch, "close 0 0", "cjoin 0"]
            out.append(Script(f"{pid}rooted-{2 * n + bool(batch)}", cm))
    return out


def bulk():
    """Backlogs far larger than one read, of every shape a queue can take."""
    out = []

    def add(name, pre, rounds, after=()):
        for q in ("", " n=128", " n=1") if len(rounds) == 1 and name != "files" else ("",):
            cm = ["fs mkdir r"] + pre + ["open 0 r stops=wait", "arrive 0"]
            for ops in rounds:
                cm += ops + (["go 0%s until=wait" % q] * (3 if q else 0)) + ["idle 0"]
            cm += list(after) + ["fs creat r/last", "idle 0", "close 0 0", "cjoin 0"]
            out.append(Script(f"bulk-{name}{q.strip().replace('=', '')}-{len(out)}", cm))

    for n in (43, 86, 130, 300):
        d = [f"r/d{i}" for i in range(n)]
        mk, rm = [f"fs mkdir {x}" for x in d], [f"fs rmdir {x}" for x in d]
        add("rmdirs", mk, [rm])
        add("mkdirs", [], [mk])
        add("mkrm", [], [mk, rm])
        add("mkrm1", [], [[y for x in zip(mk, rm) for y in x]])
        add("files", [], [[f"fs creat r/f{i}" for i in range(n)], [f"fs write r/f{i}" for i in range(n)], [f"fs unlink r/f{i}" for i in range(n)]])
    for n in (40, 120):
        add("moves", [f"fs creat r/f{i}" for i in range(n)], [[f"fs rename r/f{i} r/g{i}" for i in range(n)]])
        add("dmoves", [f"fs mkdir r/d{i}" for i in range(n)], [[f"fs rename r/d{i} r/e{i}" for i in range(n)]], [f"fs creat r/e{n - 1}/x", f"fs creat r/e0/x"])
    for l in (15, 16, 31, 32, 200, 240, 255):
        names = [("n%03d" % i).ljust(l, "x") for i in range(40)]
        add("long", [], [[f"fs creat r/{x}" for x in names] + [f"fs unlink r/{x}" for x in names]])
    deep = ["r"]
    for i in range(15):
        deep.append(deep[-1] + "/" + ("d%d" % i).ljust(200, "y"))
    add("deep", [f"fs mkdir {x}" for x in deep[1:]], [[f"fs creat {deep[-1]}/{'f'.ljust(255, 'q')}", f"fs unlink {deep[-1]}/{'f'.ljust(255, 'q')}", f"fs rmdir {deep[-1]}"]])
    return out


def reach(pid):
    """Trees which are large in every direction: crowded, deep, of long and of strange names; there at the start, moved in, or made in place."""
    out = []
    far = [f"d{i}".ljust(200, "y") for i in range(15)]

    def tree(kind, base):
        """The directories below base, from the top, and those of them to look into."""
        if kind == "crowd":
            ds = [f"{base}/e{i}" for i in range(700)]
            return ds, ds[::23]
        if kind == "mixed":
            return [f"{base}/e{i}" for i in range(40)], [f"{base}/e{i}" for i in range(0, 40, 5)]
        if kind == "far":
            ds = [base + "/" + "/".join(far[:i + 1]) for i in range(15)]
            return ds, ds[4::5]
        if kind == "chain":
            ds = [base + "/" + "/".join(["c"] * (i + 1)) for i in range(260)]
            return ds, ds[8::50]
        ds = [f"{base}/" + enc(x) for x in ODD]
        return ds, ds

    for kind in ("crowd", "mixed", "far", "chain", "names"):
        for how in ("before", "in", "made", "renamed"):
            if pid == "P06" and how != "before" or pid == "P07" and how not in ("in", "made") or pid == "P08" and how != "renamed":
                continue
            for untyped in (False, True) if how == "before" else (False,):
                at = {"before": "r/t", "in": "o/t", "made": "r/t", "renamed": "r/s"}[how]
                ds, look = tree(kind, at)
                mk = [f"fs mkdir {at}"] + ([f"fs creat {at}/f{i}" for i in range(260)] if kind == "mixed" else []) + [f"fs mkdir {d}" for d in ds]
                cm = (["stack 1024"] if kind == "chain" else []) + (["dtunknown"] if untyped else []) + ["fs mkdir r", "fs mkdir o"] + ([] if how == "made" else mk) + ["open 0 r stops=wait", "arrive 0"]
                cm += {"before": [], "in": ["fs rename o/t r/t", "idle 0"], "made": mk + ["idle 0"], "renamed": ["fs rename r/s r/t", "idle 0"]}[how]
                for n, d in enumerate(look):
                    d = "r/t" + d[len(at):]
                    cm += [f"fs creat {d}/z"] + ([f"fs mkdir {d}/y", "idle 0", f"fs creat {d}/y/x"] if n % 4 == 0 else [])
                cm += ["idle 0", "fs creat r/last", "idle 0", "close 0 0", "cjoin 0"]
                out.append(Script(f"{pid}reach-{kind}-{how}{untyped:d}", cm))
    return out


def moved(pid):
    """Directories with directories in them go everywhere, past names which begin like theirs, and something happens in all of them."""
    out, n = [], 0
    top = ["a", "ab", "a b"]

    def after(ds, a, b):
        return [b + d[len(a):] if d == a or d.startswith(a + "/") else d for d in ds]

    start = [f"r/{x}{y}" for x in top for y in ("", "/a", "/a/a", "/ab")] + ["o/d", "o/d/a"]
    for src in ("r/a", "r/ab", "r/a/a"):
        for to in ("r/x", "r/ax", src + "a", "r/a b/x", "r/a b/a/a/x", "o/x", "o/" + src[2:].replace("/", ""), "x r/ab", "x r/a b/a", "x o/d", "x o/d/a"):
            other = to[2:] if to[:2] == "x " else ""
            if other and (src == other or src.startswith(other + "/") or other.startswith(src + "/")):
                continue
            if not other and (to in start or to.startswith(src + "/")):
                continue
            for then in ("back", "on", "again", "made", "in"):
                if other and then == "made" or then == "in" and to[:2] != "o/":
                    continue
                for batch in ("", " n=1") if then in ("back", "made", "in") else ("",):
                    ds, cm, k = list(start), ["fs mkdir r", "fs mkdir o"], 0
                    cm += [f"fs mkdir {enc(d)}" for d in ds] + ["open 0 r stops=wait", "arrive 0"]

                    def go(a, b, swap):
                        nonlocal ds
                        cm.append(f"fs {'xchg' if swap else 'rename'} {enc(a)} {enc(b)}")
                        ds = after(after(after(ds, a, "\0"), b, a), "\0", b) if swap else after(ds, a, b)

                    def touch():
                        nonlocal k
                        k += 1
                        for i, d in enumerate(ds):
                            cm.append(f"fs {'mkdir' if i % 3 == k % 3 else 'creat'} {enc(d)}/f{k}")
                            if i % 4 == 3:
                                cm.append("idle 0" + batch)
                        cm.append("idle 0" + batch)

                    go(src, other or to, bool(other))
                    cm.append("idle 0" + batch)
                    if then == "in":  # nothing but the departure is known when something else arrives
                        go("o/d", "r/z", False)
                        cm.append("idle 0" + batch)
                    touch()
                    if then == "back":
                        go(other or to, src, bool(other))
                    elif then == "again":
                        go(other or to, "r/y", False)
                    elif then == "made":
                        cm += [f"fs mkdir {enc(src)}", f"fs mkdir {enc(src)}/a"]
                        ds += [src, src + "/a"]
                    cm.append("idle 0" + batch)
                    touch()
                    cm += [f"fs rmdir {enc(d)}/f2" for i, d in enumerate(ds) if i % 3 == 2] + ["idle 0" + batch]
                    cm += ["fs creat r/last", "idle 0", "close 0 0", "cjoin 0"]
                    out.append(Script(f"{pid}moved-{n}", cm))
                    n += 1
    return out


def limits(pid):
    """At the length a path can have: what is below it is reported, and what is above it is said to be unwatched."""
    out = []
    top = 4095
    for n, k in enumerate(range(0, 6)):
        # the scratch directory has top - 20 + k characters, so r has two more
        ln = top - 20 + k
        room = top - (ln + 2) - 1  # what is left for one name in r
        fits, over = "m" * room, "n" * (room + 1)
        for how in ("before", "after", "in", "under"):
            if how in ("before", "after"):
                mk = [f"fs mkdir r/{fits}", f"fs mkdir r/{over}", f"toolong r/{over}"]
                cm = [f"pad {ln}", "fs mkdir r"] + (mk if how == "before" else []) + ["open 0 r stops=wait", "arrive 0"] + (mk if how == "after" else [])
                at = f"r/{fits}"
            else:  # what is inside gets a longer path with the name of a directory above it
                a, b = fits[2:], fits[3:]
                at = f"r/qq/{b}"
                src = "o/q" if how == "in" else "r/q"
                cm = [f"pad {ln}", "fs mkdir r", "fs mkdir o", f"fs mkdir {src}", f"fs mkdir {src}/{b}"] + ([f"fs mkdir {src}/{a}"] if how == "in" else [])
                cm += ["open 0 r stops=wait", "arrive 0", f"fs rename {src} r/qq"] + ([f"toolong r/qq/{a}"] if how == "in" else [f"fs mkdir r/qq/{a}", f"toolong r/qq/{a}"])
            cm += ["idle 0", f"fs creat {at}/f", f"fs creat r/{'g' * 200}", f"fs write r/{'g' * 200}", f"fs creat {at}/{'h' * 255}", "idle 0",
                   f"fs unlink {at}/{'h' * 255}", f"fs rename r/{'g' * 200} {at}/g", "idle 0", "fs creat r/last", "idle 0", "close 0 0", "cjoin 0"]
            out.append(Script(f"{pid}limit-{k}{how}", cm))
    return out


def setup():
    drivers()


def check(pid):
    plan = PLAN[pid]
    c = Check(pid, "model_checking")
    c.rule = ("behaviours of spec/TreeModel.tla (random walks over operations, scan steps and reads of any size), replayed on the real watcher through the "
              "interposition layer; non-trivial: distinct recordings of more than 200 characters")
    bins = drivers()
    c.cov["variants"] = ["/".join(k) for k in bins]
    for k in plan["explore"] + (plan["deep"] if THOROUGH else []):
        c.explored(explore("TreeModel", **k))
    scripts = families(plan["fams"]())
    scripts += rooted(pid)
    if pid in ("P06", "P09"):
        scripts += links(pid)
    if pid in ("P06", "P07", "P08"):
        scripts += reach(pid)
    if pid == "P06":
        scripts += limits(pid)
    if pid == "P08":
        scripts += moved(pid)
    if pid == "P04":
        scripts += forms() + bulk()
    c.run_stream(bins, scripts)
    return c.finish()


def replay(d):
    bins = drivers()
    b = bins[tuple(d["driver"])]
    lines = d["script"].splitlines()
    s = Script(lines[0].split(" ", 1)[1], lines[1:])
    r = run_scripts(b, [s], jobs=1)
    ev = normalise(r[s.id], d.get("meta"))
    v = validate({"x": ev}, d.get("module", "WatchTrace"))["x"]
    for i, e in enumerate(ev):
        print(i + 1, json.dumps(e))
    print(v)
    return 0 if v[0] else 1
