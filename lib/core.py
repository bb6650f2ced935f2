"""Common machinery of the checks: building drivers from /repo's working tree,
running scripts against them, turning recordings into traces of the
specification, running TLC, reporting."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
sys.setrecursionlimit(20000)
from urllib.parse import quote

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = min(8, os.cpu_count() or 1)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ)
ENV.pop("LD_LIBRARY_PATH", None)
ENV.pop("LD_PRELOAD", None)
ENV.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC")


class CheckError(Exception):
    """The check itself could not do its work (never a verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ scratch
_scratch = []


def scratch(prefix="wv"):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix=prefix, dir=base)
    _scratch.append(d)
    return d


def cleanup():
    while _scratch:
        d = _scratch.pop()
        if os.path.basename(d).startswith("wv"):
            subprocess.run(["chmod", "-R", "u+rwx", d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ building
def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isdir(p):
            for r, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(r, f)
                    h.update(q.encode())
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


VARIANTS = {"amalgam": ["include"], "devel": ["devel/include"]}


def build_many(jobs):
    """jobs: list of (name, cmd-builder(out) -> list, inputs). Builds in parallel, cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    running, outs = [], {}
    for name, mk, inputs in jobs:
        cmd0 = mk("OUT")
        h = tree_hash(inputs, " ".join(cmd0))
        out = os.path.join(BUILD, f"{name}-{h}")
        outs[name] = out
        if os.path.exists(out):
            continue
        tmp = out + f".tmp{os.getpid()}"
        running.append((name, out, tmp, subprocess.Popen(mk(tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)))
    fail = None
    for name, out, tmp, p in running:
        o, _ = p.communicate()
        if p.returncode != 0:
            fail = CheckError(f"building {name} failed:\n" + o.decode(errors="replace")[-4000:])
        else:
            os.replace(tmp, out)
    if fail:
        raise fail
    return outs


def driver_job(variant, api="cpp", extra=()):
    inc = [os.path.join(REPO, d) for d in VARIANTS[variant]]
    src = [os.path.join(VERIF, "driver", "driver.cpp")]
    inputs = inc + [os.path.join(VERIF, "driver")]
    flags = ["-std=c++17", "-O1", "-g1", "-w"] + ["-I" + i for i in inc] + list(extra)
    if api == "c":
        wc = os.path.join(REPO, "watcher-c")
        src.append(os.path.join(wc, "src", "watcher-c.cpp"))
        inputs.append(wc)
        flags += ["-DAPI_C", "-I" + os.path.join(wc, "include")]
    tag = "".join(re.sub(r"\W", "", e) for e in extra)
    return (f"drv-{variant}-{api}{tag}", lambda out: ["g++"] + flags + ["-o", out] + src + ["-ldl", "-pthread"], inputs)


def drivers(variants=("amalgam", "devel"), apis=("cpp",), extra=()):
    jobs = [driver_job(v, a, extra) for a in apis for v in variants]
    outs = build_many(jobs)
    return {(v, a): outs[driver_job(v, a, extra)[0]] for a in apis for v in variants}


# ------------------------------------------------------------------ scripts
def enc(s):
    return quote(s, safe="/=.,_-*+:", errors="surrogateescape") if s != "" else "%"


class Script:
    def __init__(self, sid, cmds, **meta):
        self.id, self.cmds, self.meta = sid, cmds, meta

    def text(self):
        return "\n".join(["script " + self.id] + [" ".join(c) if isinstance(c, (list, tuple)) else c for c in self.cmds]) + "\n"


class Recording:
    def __init__(self, sid, code, root, ev):
        self.id, self.code, self.root, self.ev = sid, code, root, ev


def latin(s):
    """The driver logs bytes; back to the text those bytes spell."""
    return s.encode("latin-1").decode("utf-8", "surrogateescape")


def run_scripts(binary, scripts, jobs=JOBS, timeout_ms=6000, wall=600, env=None):
    d = scratch("wvrun")
    sp, op, wd = os.path.join(d, "scripts"), os.path.join(d, "out"), os.path.join(d, "w")
    os.mkdir(wd)
    with open(sp, "w") as f:
        for s in scripts:
            f.write(s.text())
    e = dict(ENV, DRV_TIMEOUT_MS=str(timeout_ms))
    if env:
        e.update(env)
    try:
        p = subprocess.run([binary, sp, op, wd, str(jobs)], env=e, timeout=wall, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
    except subprocess.TimeoutExpired:
        raise CheckError("driver did not finish")
    if p.returncode != 0:
        raise CheckError(f"driver failed ({p.returncode}): {p.stderr.decode(errors='replace')[-2000:]}")
    res = {}
    cur = None
    skipped = set()
    with open(op, encoding="latin-1") as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("#trace "):
                _, sid, code, root = (line.split(" ", 3) + [""])[:4]
                cur = Recording(sid, int(code), root, [])
                res[sid] = cur
            elif line.startswith("#skipped "):
                skipped.add(line.split(" ", 1)[1])
            elif line:
                try:
                    cur.ev.append(json.loads(line))
                except ValueError:
                    cur.ev.append({"e": "garbled"})
    subprocess.run(["chmod", "-R", "u+rwx", d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    shutil.rmtree(d, ignore_errors=True)
    for s in scripts:
        if s.id in skipped:
            continue
        if s.id not in res:
            raise CheckError("no recording of " + s.id)
        for e in res[s.id].ev:
            if e["e"] == "badscript":
                raise CheckError(f"bad script {s.id}: {e.get('what')}")
    return res


# ------------------------------------------------------------------ traces
MK = {"mkdir", "creat", "symlink", "symrel", "link", "fifo"}
MOD = {"write", "trunc", "otrunc"}
VISIBLE = ("create", "delete", "modify", "from", "to")


def relpath(root, p):
    """A path as the specification sees it: names below the scratch directory, or marked foreign."""
    if p == root or (not root and p == "/"):
        return []
    if p.startswith(root + "/"):
        return p[len(root) + 1:].split("/")
    return ["<foreign>", p]


FATAL = {"inotify_init": "inotify", "epoll_create": "epoll", "epoll_ctl": "epoll", "epoll_wait": "epoll", "read": "read", "eventfd": "eventfd"}
EINTR, EAGAIN = 4, 11


def normalise(rec, meta=None):
    meta = meta or {}
    out, root = [], rec.root
    ready = set()
    ended = False
    toolong, opened = [], set()
    # a start-up that could watch nothing at all is a fatal failure of its own
    for e in rec.ev:
        k = e["e"]
        w = e.get("w", 0) + 1
        if k == "op":
            if not e["ok"]:
                continue
            p, q = latin(e["p"]).split("/"), [x for x in latin(e["q"]).split("/") if x]
            o = e["op"]
            kind = "mk" if o in MK else "mod" if o in MOD else "rm" if o in ("unlink", "rmdir") else "mv" if o == "rename" else "xch" if o == "xchg" else "nop"
            if kind == "nop":
                out.append({"k": "nop"})
            else:
                out.append({"k": "op", "op": kind, "p": p, "q": q if kind in ("mv", "xch") else [], "dir": bool(o == "mkdir" if kind == "mk" else e["dir"])})
        elif k == "woven":
            if e["n"]:
                out.append({"k": "weave", "w": w, "m": e["n"]})
        elif k == "pad":
            root = latin(e["root"])
        elif k == "toolong":
            toolong.append(relpath(root, latin(e["p"])))
            out += [{"k": "fault", "w": v, "cls": "refuse", "fac": "", "p": toolong[-1]} for v in sorted(opened)]
        elif k == "open":
            raw = latin(e["p"])
            real = latin(e.get("real", "")) or None
            out.append({"k": "open", "w": w, "path": relpath(root, latin(e.get("abs", "")) or raw),
                        "root": [x for x in real.split("/") if x] if real else relpath(root, raw)})
            opened.add(w)
            out += [{"k": "fault", "w": w, "cls": "refuse", "fac": "", "p": p} for p in toolong]
        elif k == "cb":
            bad = "overlap" if e["conc"] > 1 else "time" if not e["tok"] else ""
            if e["pt"] == "watcher":
                txt = latin(e["p"])
                m, at, p = txt.partition("@")
                out.append({"k": "msg", "w": w, "m": m if at else txt, "p": relpath(root, p), "et": e["et"], "cls": txt[:1] if txt[1:2] == "/" else "?", "bad": bad})
            else:
                out.append({"k": "cb", "w": w, "pt": e["pt"], "et": e["et"], "p": relpath(root, latin(e["p"])), "as": bool(e["assoc"]),
                            "ap": relpath(root, latin(e["ap"])) if e["assoc"] else [], "apt": e["apt"], "aet": e["aet"], "bad": bad})
        elif k == "cbend":
            out.append({"k": "cbend", "w": w})
        elif k == "batch":
            if w not in ready:
                ready.add(w)
                out.append({"k": "ready", "w": w})
            n, ovf = 0, []
            for r in e["recs"]:
                if "ovf" in r[1].split("|"):
                    ovf.append(n)
                elif any(v in r[1].split("|") for v in VISIBLE):
                    n += 1
            out.append({"k": "batch", "w": w, "split": bool(e["split"]), "ovf": ovf})
        elif k == "asis":
            out.append(e["x"])
        elif k == "fmark":
            out.append({"k": "mark", "w": w, "p": relpath(root, latin(e["p"]))})
        elif k == "fbatch":
            if w not in ready:
                ready.add(w)
                out.append({"k": "ready", "w": w})
            out.append({"k": "read", "w": w, "recs": [{"k": r["k"], "d": relpath(root, latin(r["d"])) if r["d"] else [], "nm": latin(r["nm"]), "ck": r["ck"], "dir": bool(r["dir"]),
                                                       "gone": bool(r["gone"])} for r in e["recs"]]})
        elif k == "at":
            if e["gate"] in ("wait", "blocked") and w not in ready:
                ready.add(w)
                out.append({"k": "ready", "w": w})
        elif k == "idle":
            if w not in ready:
                ready.add(w)
                out.append({"k": "ready", "w": w})
            out.append({"k": "idle", "w": w})
        elif k == "ended":
            out.append({"k": "ended", "w": w})
        elif k == "fault":
            fn, en = e["fn"], e["errno"]
            if meta.get("fallback") and fn.startswith("fanotify"):
                continue
            if fn in ("inotify_add_watch", "fanotify_mark"):
                out.append({"k": "fault", "w": w, "cls": "refuse", "fac": "", "p": relpath(root, latin(e["p"]))})
            elif fn == "opendir":
                out.append({"k": "fault", "w": w, "cls": "blind", "fac": "", "p": relpath(root, latin(e["p"]))})
            elif fn in ("read", "epoll_wait") and en in (EINTR, EAGAIN):
                out.append({"k": "fault", "w": w, "cls": "transient", "fac": fn, "p": []})
            elif fn in FATAL:
                out.append({"k": "fault", "w": w, "cls": "fatal", "fac": FATAL[fn], "p": []})
            else:
                out.append({"k": "fault", "w": w, "cls": "other", "fac": fn, "p": []})
        elif k == "req":
            out.append({"k": "request", "w": w})
        elif k in ("close", "destroy"):
            out.append({"k": "close", "w": w})
        elif k == "closed":
            out.append({"k": "closed", "w": w, "v": bool(e["v"])})
        elif k == "destroyed":
            out.append({"k": "destroyed", "w": w})
        elif k == "closednull":
            if e["v"]:
                out.append({"k": "bad", "what": "null-close-true"})
        elif k == "ctry":
            pass
        elif k in ("hang", "crash", "badctx", "badstr", "openfail", "garbled"):
            what = k if k != "hang" else "hang:" + e.get("what", "")
            out.append({"k": "bad", "what": what})
            ended = True
        elif k == "end":
            ended = True
    if not ended:
        out.append({"k": "bad", "what": f"died:{rec.code}"})
    return out


# ------------------------------------------------------------------ TLC
TLC_STATS = {"runs": 0, "states": 0, "transitions": 0}


def tlc(module, cfg=None, workers=JOBS, heap="6g", env=None, args=(), wall=800, deadlock_ok=False, ok_codes=(0,), specdir=SPEC):
    """Runs TLC; returns (code, output). Raises CheckError on anything but a clean end or a listed code."""
    meta = scratch("wvtlc")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    e = dict(ENV)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=specdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=wall)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC on {module} did not finish in {wall}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode(errors="replace")
    TLC_STATS["runs"] += 1
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    gen = dist = 0
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        TLC_STATS["transitions"] += gen
        TLC_STATS["states"] += dist
    if p.returncode not in ok_codes:
        raise CheckError(f"TLC on {module} failed ({p.returncode}):\n{out[-3000:]}")
    return p.returncode, out, dist, gen


def tagged(out, tag="@@"):
    """The JSON values a specification printed with PrintT("@@" \\o ToJson(..))."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag):
            try:
                res.append(json.loads(json.loads(line)[len(tag):]))
            except ValueError:
                raise CheckError("unreadable TLC output: " + line[:300])
    return res


def validate(traces, module="WatchTrace", heap="6g", wall=800):
    """traces: dict id -> list of events. Returns dict id -> (ok, index, why)."""
    if not traces:
        return {}
    d = scratch("wvtr")
    path = os.path.join(d, "traces.ndjson")
    with open(path, "w") as f:
        for sid, ev in traces.items():
            if len(ev) > 6000 and ev[-1].get("k") == "bad":  # what ends like this is rejected whatever came before
                ev = ev[:1000] + ev[-1:]
            f.write(json.dumps({"id": sid, "ev": ev}) + "\n")
    _, out, _, _ = tlc(module, env={"TRACES": path}, heap=heap, wall=wall)
    res = {}
    for r in tagged(out):
        if r["id"] in res and not res[r["id"]][0]:
            continue
        res[r["id"]] = (r["r"] == "ACCEPT", r["i"], r["why"])
    missing = [s for s in traces if s not in res]
    if missing:
        raise CheckError(f"{len(missing)} traces were not judged, e.g. {missing[0]}\n" + out[-1500:])
    shutil.rmtree(d, ignore_errors=True)
    return res
