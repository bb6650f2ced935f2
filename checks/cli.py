"""P19: the command line tool, on behaviours of Cli.tla, judged by CliTrace.tla and, its stream, by WatchTrace.tla."""
import selectors, signal, socket
from gen import *
from check import Check

U = {"-nanoseconds": 0, "-ns": 0, "-microseconds": 0, "-us": 0, "-milliseconds": 0, "-ms": 0, "-seconds": 1, "-s": 1, "-minutes": 60, "-m": 60,
     "-hours": 3600, "-h": 3600, "-days": 86400, "-d": 86400, "-weeks": 604800, "-w": 604800, "-months": 2592000, "-mts": 2592000,
     "-years": 31536000, "-y": 31536000}
MAXI = (1 << 31) - 1
FORMS = ["none", "dir", "dot", "slash", "relative", "odd", "link", "empty", "missing", "below", "toolong", "loop", "file"]
START = ["inotify_init:1:24", "epoll_create:1:24", "epoll_ctl:1:28", "eventfd:1:24", "inotify_add_watch:1:28"]
LATER = ["epoll_wait:1:9", "epoll_wait:2:22", "epoll_wait:2:9"]


def build():
    src = os.path.join(REPO, "src", "wtr", "watcher", "main.cpp")
    shim = os.path.join(VERIF, "driver", "clishim.c")
    jobs = [("clishim", lambda out: ["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", out, shim, "-ldl"], [shim])]
    for v, incs in VARIANTS.items():
        inc = [os.path.join(REPO, d) for d in incs]
        jobs.append((f"tool-{v}", lambda out, inc=inc: ["g++", "-std=c++17", "-O1", "-w"] + ["-I" + i for i in inc] + ["-o", out, src, "-pthread"], inc + [src]))
    return build_many(jobs)


def number(unit, size, rng):
    """A number of a unit: its text, and as the specification sees it (-1: larger than it can count)."""
    if size == 2:
        t = rng.choice(["18446744073709551614", "9223372036854775807", "1000000000000000000"]) if not U[unit] else \
            rng.choice(["18446744073709551614", "9223372036854775807", "1000000000000", str((1 << 63) // (U[unit] * 1000000000) + 1), str(MAXI // U[unit] + 1)])
        if unit in ("-ns", "-nanoseconds"):
            t = "18446744073709551614"
        return t, -1
    if unit in ("-ns", "-nanoseconds"):
        n = rng.choice([MAXI, 2000000000, 1234567891])
    elif unit in ("-us", "-microseconds"):
        n = rng.choice([3000000, 7654321, MAXI] if size else [3000000])
    elif unit in ("-ms", "-milliseconds"):
        n = rng.choice([3000, 86400001, MAXI] if size else [3000])
    else:
        lim = MAXI // U[unit]
        n = rng.choice([lim, max(1, lim // 2), max(1, min(lim, 59))]) if size else min(lim, max(1, rng.choice([1, 2, 3]), -(-3 // U[unit])))
    return str(n), n


class Run:
    def __init__(self, tool, shim, s):
        self.s, self.m = s, s.meta
        self.tool, self.shim = tool, shim
        self.lines, self.tr, self.wt = b"", [], []
        self.err = b""
        self.dead = {}

    # ------------------------------------------------------------- the place
    def place(self):
        m = self.m
        d = os.path.realpath(scratch("wvcli"))
        self.d = d
        self.rname = m["root"]
        self.r = os.path.join(d, self.rname)
        os.mkdir(self.r)
        os.mkdir(os.path.join(d, "o"))
        open(os.path.join(d, "m"), "w").close()
        os.symlink(self.rname, os.path.join(d, "l"))
        os.symlink("loop", os.path.join(d, "loop"))
        f = m["path"]
        self.cwd = self.r if f in ("none", "dot") else d
        self.arg = {"none": None, "dir": self.r, "dot": ".", "slash": self.r + "/", "relative": self.rname, "odd": self.r, "link": "l", "empty": "",
                    "missing": "nope", "below": "m/x", "toolong": "x" * 300, "loop": "loop", "file": "m"}[f]
        self.watched = {"link": os.path.join(d, "l"), "file": os.path.join(d, "m")}.get(f, self.r)

    def rel(self, p):
        p = os.path.normpath(p)
        if self.m["path"] == "link" and (p == self.watched or p.startswith(self.watched + "/")):
            p = self.r + p[len(self.watched):]
        return relpath(self.d, p)

    # ------------------------------------------------------------- its output
    def one(self, raw):
        if self.m["kind"] != "watch":
            return
        try:
            j = json.loads(raw.decode("utf-8"))

            def shape(x, top):
                if set(x) != {"path_type", "path_name", "effect_type", "effect_time", "associated"} or type(x["effect_time"]) is not int:
                    raise ValueError
                if any(type(x[k]) is not str for k in ("path_type", "path_name", "effect_type")):
                    raise ValueError
                if x["associated"] is not None:
                    if not top:
                        raise ValueError
                    shape(x["associated"], False)
            shape(j, True)
        except (ValueError, TypeError, AttributeError):
            self.tr.append({"k": "line", "cls": "?", "ours": False, "raw": raw.decode("latin-1")[:200]})
            return
        a = j["associated"]
        if j["path_type"] == "watcher":
            txt = j["path_name"]
            msg, at, p = txt.partition("@")
            ours = bool(at) and os.path.normpath(p) == self.watched
            cls = {"s/self/live": "live:ok", "e/self/live": "live:bad", "s/self/die": "die:ok", "e/self/die": "die:bad"}.get(msg, {"e": "err", "w": "warn"}.get(txt[:1], "event"))
            self.tr.append({"k": "line", "cls": cls, "ours": ours, "raw": txt})
            self.seen.append(msg)
            if cls.startswith("live"):
                self.live = cls
            if cls.startswith("die"):
                self.died = True
            self.wt.append({"k": "msg", "w": 1, "m": msg, "p": self.rel(p), "et": j["effect_type"], "cls": txt[:1] if txt[1:2] == "/" else "?", "bad": ""})
        else:
            self.tr.append({"k": "line", "cls": "event", "ours": True, "raw": j["path_name"][-60:]})
            self.seen.append(os.path.basename(j["path_name"]))
            self.wt.append({"k": "cb", "w": 1, "pt": j["path_type"], "et": j["effect_type"], "p": self.rel(j["path_name"]), "as": a is not None,
                            "ap": self.rel(a["path_name"]) if a else [], "apt": a["path_type"] if a else "", "aet": a["effect_type"] if a else "", "bad": ""})
        self.wt.append({"k": "cbend", "w": 1})

    def pump(self, until, secs):
        """Reads what the tool says until something holds, or the time is over."""
        end = time.time() + secs
        while not until():
            left = end - time.time()
            if left <= 0 or not self.sel.get_map():
                return until()
            for key, _ in self.sel.select(min(left, .5)):
                try:
                    b = os.read(key.fd, 65536)
                except (BlockingIOError, InterruptedError):
                    continue
                except OSError:
                    b = b""
                if not b:
                    self.sel.unregister(key.fileobj)
                    self.eof.add(key.data)
                elif key.data == "out":
                    self.out += b
                    self.lines += b
                    while b"\n" in self.lines:
                        l, self.lines = self.lines.split(b"\n", 1)
                        self.one(l)
                elif key.data == "err":
                    self.err += b
                else:
                    self.ctlbuf += b
        return True

    def gone(self):
        return "out" in self.eof and "err" in self.eof

    # ------------------------------------------------------------- operations
    def op(self, o):
        nm = self.m["names"]
        p, q = [os.path.join(self.d, *[nm.get(c, c) for c in x]) if x else "" for x in (o["p"], o["q"])]
        d = os.path.isdir(p) if o["op"] != "mk" else o["dir"]
        try:
            if o["op"] == "mk":
                os.mkdir(p) if o["dir"] else open(p, "x").close()
            elif o["op"] == "mod":
                with open(p, "a") as f:
                    f.write("x")
            elif o["op"] == "rm":
                os.rmdir(p) if d else os.unlink(p)
            else:
                os.rename(p, q)
        except OSError:
            return
        # a read may begin between the two halves of a rename
        self.wt.append({"k": "batch", "w": 1, "split": True, "ovf": []})
        self.wt.append({"k": "op", "op": o["op"], "p": relpath(self.d, p), "q": relpath(self.d, q) if q else [], "dir": bool(o["dir"])})

    def mark(self, secs, again=False):
        """Makes a file and waits for it to be reported: everything before it was reported."""
        end = time.time() + secs
        while True:
            n = f".mark{self.nmark}"
            self.nmark += 1
            self.op({"op": "mk", "p": [self.m["root0"], n], "q": [], "dir": False})
            if self.pump(lambda: n in self.seen or self.gone(), .25 if again else secs):
                return n in self.seen
            if not again or time.time() > end:
                return False

    # ------------------------------------------------------------- a run
    def run(self):
        m = self.m
        self.place()
        self.out = b""
        self.seen, self.live, self.died, self.nmark, self.ctlbuf, self.eof = [], None, False, 0, b"", set()
        argv = [self.tool] + ([m["help"]] if m["help"] else []) + ([self.arg] if self.arg is not None else []) + ([m["unit"], m["text"]] if m["unit"] else [])
        env = dict(ENV, LD_PRELOAD=self.shim)
        if m["fault"]:
            env["CLI_FAULT"] = m["fault"]
        a, b = socket.socketpair()
        virt = m["unit"] and not m["real"]
        if virt:
            env["CLI_CTL"] = str(b.fileno())
        self.tr.append({"k": "args", "help": m["help"], "path": m["path"], "unit": m["unit"], "n": m["n"]})
        t0 = time.monotonic()
        p = subprocess.Popen(argv, cwd=self.cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=[b.fileno()] if virt else [], bufsize=0)
        b.close()
        self.sel = selectors.DefaultSelector()
        self.sel.register(p.stdout, selectors.EVENT_READ, "out")
        self.sel.register(p.stderr, selectors.EVENT_READ, "err")
        if virt:
            self.sel.register(a, selectors.EVENT_READ, "ctl")
        unclear = False
        vs = vn = 0

        def slept():
            el = time.monotonic() - t0
            if m["real"]:
                lo, ms, mn = (0, 0), int(el), int(el % 1 * 1e9)
            else:
                lo = (min(vs, MAXI), vn)
                tot = vs * 10**9 + vn + int(el * 1e9)
                ms, mn = min(tot // 10**9, MAXI), tot % 10**9
            self.tr.append({"k": "slept", "ls": lo[0], "lns": lo[1], "ms": ms, "mns": mn})

        late = False
        if m["kind"] == "watch":
            self.wt.append({"k": "op", "op": "mk", "p": [self.rname], "q": [], "dir": True})
            self.wt.append({"k": "open", "w": 1, "path": self.rel(self.watched), "root": self.rel(self.r if m["path"] != "file" else self.watched)})
            self.pump(lambda: self.live or self.gone(), 15)
            if self.live == "live:ok" and (m["ops"] or m["fault"]):
                ok = self.mark(10, again=True)
                if not m["fault"]:
                    if ok:
                        self.wt.append({"k": "ready", "w": 1})
                        self.wt.append({"k": "idle", "w": 1})
                    for o in m["ops"] if ok else []:
                        self.op(o)
                        if m["pace"]:
                            self.mark(8)
                            self.wt.append({"k": "idle", "w": 1})
                    if ok and not m["pace"]:
                        self.mark(8)
                        self.wt.append({"k": "idle", "w": 1})
                else:
                    self.pump(lambda: self.died or self.gone(), 2)
            if m["unit"]:
                if virt:
                    # sleep by sleep, until it ends
                    self.wt.append({"k": "close", "w": 1})
                    n = 0
                    while not self.gone():
                        if not self.pump(lambda: b"\n" in self.ctlbuf or self.gone(), 6):
                            # neither sleeping nor ending
                            try:
                                with open(f"/proc/{p.pid}/syscall") as f:
                                    reads = f.read().split()[:2] == ["0", "0x0"]
                            except OSError:
                                reads = False
                            late = reads or vs > 0 or vn > 0
                            unclear = not late
                            break
                        if b"\n" in self.ctlbuf:
                            l, self.ctlbuf = self.ctlbuf.split(b"\n", 1)
                            x = l.split()
                            vs, vn = vs + int(x[1]), vn + int(x[2])
                            vs, vn = vs + vn // 10**9, vn % 10**9
                            n += 1
                            if n > 5000:
                                unclear = True
                                break
                            if m["n"] < 0 and vs > 1 << 34:
                                vs = min(vs, 1 << 40)
                            try:
                                a.send(b"g")
                            except OSError:
                                pass
                else:
                    self.wt.append({"k": "close", "w": 1})
                    late = not self.pump(self.gone, 30)
                slept()
            else:
                self.pump(self.gone, .05)
                if not self.gone():
                    self.wt.append({"k": "close", "w": 1})
                    self.tr.append({"k": "input", "what": m["input"]})
                    try:
                        if m["input"] != "eof":
                            p.stdin.write(b"\n" if m["input"] == "empty" else b"some text \xff\n")
                        else:
                            p.stdin.close()
                    except OSError:
                        pass
                    late = not self.pump(self.gone, 15)
        else:
            late = not self.pump(self.gone, 15)
        if late or unclear:
            p.kill()
            p.wait()
            self.tr.append({"k": "late"})
        else:
            try:
                code = p.wait(15)
                self.tr += self.said(m)
                self.tr.append({"k": "exit", "code": max(code, -1)})
                self.wt.append({"k": "closed", "w": 1, "v": code == 0})
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                self.tr.append({"k": "late"})
        for f in (p.stdin, p.stdout, p.stderr, a):
            try:
                f.close()
            except OSError:
                pass
        self.sel.close()
        shutil.rmtree(self.d, ignore_errors=True)
        return None if unclear else self.tr, self.wt

    def said(self, m):
        if m["kind"] == "watch":
            return [{"k": "line", "cls": "?", "ours": False, "raw": self.lines.decode("latin-1")[:100]}] if self.lines else []
        res = []
        for where, b in (("stdout", self.out), ("stderr", self.err)):
            t = b.decode("utf-8", "replace")
            if all(w in t for w in list(U) + ["PATH", "UNIT", "TIME", "--help"]):
                res.append({"k": "help", "where": where})
            elif t.strip():
                res.append({"k": "noise", "where": where})
        return res


def script(sid, b, **o):
    rng = random.Random(seeded(sid))
    a, hist = b["args"], b["hist"]
    ops = [h for h in hist if h["c"] == "op"]
    inp = [h["op"] for h in hist if h["c"] == "input"]
    start = [h["op"] for h in hist if h["c"] == "start"]
    form = a["path"]
    kind = "help" if a["help"] else "watch" if form in ("none", "dir", "dot", "slash", "relative", "odd", "link", "file") else "usage"
    names = {}
    pool = [x for x in ODD if len(x) < 120 and not any("\ud800" <= c <= "\udfff" for c in x)]  # JSON is promised for UTF-8
    root0, root = "r", "r"
    if form == "odd":
        root = rng.choice(pool[3:])
        for c in ("a", "b", "c"):
            names[c] = rng.choice([x for x in pool if x not in names.values() and x not in ("a", "b", "c")])
    names["r"] = root
    text, n = number(a["unit"], a["n"], rng) if a["unit"] else ("", 0)
    if o.get("real"):
        text, n = o["real"]
    fault = {"start": rng.choice(START), "later": rng.choice(LATER)}.get(start[0] if start and form != "file" else "", "")
    return Script(sid, [json.dumps(b)], help=a["help"], path=form, unit=a["unit"], text=text, n=n, real=bool(o.get("real")), kind=kind, names=names, root=root, root0=root0,
                  ops=ops, input=inp[0] if inp else "eof", fault=fault, pace=rng.random() < .7)


def family(name, b, keep=None):
    hs = uniq(b)
    hs.sort(key=json.dumps)
    if keep and len(hs) > keep:
        random.Random(seeded(name)).shuffle(hs)
        hs = hs[:keep]
    return [script(f"{name}-{i}", h) for i, h in enumerate(hs)]


def make(pid):
    S = 8 if THOROUGH else 1
    base = dict(PathForms={"dir"}, UnitNames=[], Numbers=[0], HelpForms=[""], MaxOps=0, Faults=[""], Names=["a"])
    fams = {
        "forms": (dict(base, PathForms=FORMS, UnitNames=["-ms", "-s"], HelpForms=["", "-h", "--help"], Faults=["", "start"]), None),
        "units": (dict(base, UnitNames=sorted(U), Numbers=[0, 1, 2]), None),
        "faults": (dict(base, PathForms=["dir", "none", "odd"], UnitNames=["-ms"], Faults=["", "start", "later"]), None),
        "few": (dict(base, MaxOps=2, UnitNames=["-m"]), 60 * S),
        "ops": (dict(base, PathForms=["dir", "none", "dot", "slash", "relative", "link", "odd", "odd", "odd"], UnitNames=["-s", "-d"], MaxOps=6, Names=["a", "b"]), 160 * S),
    }
    out = []
    for f, (consts, keep) in fams.items():
        if f == "ops":
            bs = simulate("Cli", keep, 40, seeded(f) % (1 << 31), **consts)
        else:
            bs = behaviours("Cli", **consts)
        out += family(f, bs, keep)
    for i, (u, t, n) in enumerate([("-ms", "400", 400), ("-s", "1", 1), ("-us", "300000", 300000), ("-ns", "200000000", 200000000), ("-milliseconds", "250", 250)]):
        out.append(script(f"real-{i}", {"args": {"help": "", "path": "dir", "unit": u, "n": 0}, "hist": []}, real=(t, n)))
    return out


def check(pid):
    c = Check(pid, "model_checking")
    c.rule = "behaviours of Cli.tla with distinct judged recordings of more than 200 characters"
    c.assumptions = ["the tool sleeps through nanosleep or clock_nanosleep: longer times are virtual; runs where it does not are counted as unclear"]
    c.explored(explore("Cli", PathForms=FORMS, UnitNames=["-s", "-y"], Numbers=[0, 1], HelpForms=["", "-h", "--help"], MaxOps=2, Faults=["", "start", "later"], Names=["a", "b"]))
    built = build()
    scripts = make(pid)
    ids = {s.id: s for s in scripts}
    extra = {}
    unclear = set()

    def go(variant):
        def r(ss, jobs=JOBS):
            res = {}

            def one(s):
                tr, wt = Run(built["tool-" + variant], built["clishim"], s).run()
                return s.id, tr, wt
            with cf.ThreadPoolExecutor(jobs * 2 if jobs > 1 else 1) as ex:
                for sid, tr, wt in ex.map(one, ss):
                    if tr is None:
                        unclear.add(sid)
                        tr = []
                    res[sid] = tr
                    extra[sid] = wt
            return res
        return r

    for v in VARIANTS:
        ss = [s for i, s in enumerate(scripts) if THOROUGH or v == "amalgam" or i % 3 == 0]
        c.run_with(go(v), go(v), ss, "CliTrace", ["tool", v])
        watched = [s for s in ss if s.meta["kind"] == "watch" and not s.meta["fault"] and s.meta["ops"] and s.id not in unclear]
        got = dict(extra)

        def first(ws):
            return {s.id: got[s.id] for s in ws}

        def streams(ws, jobs=1):
            go(v)(ws, jobs)
            return {s.id: extra[s.id] for s in ws}
        c.run_with(first, streams, watched, "WatchTrace", ["tool", v, "stream"])
    c.cov["unclear"] = len(unclear)
    c.cov["variants"] = list(VARIANTS)
    return c.finish()


def replay(d):
    m = d["meta"]
    built = build()
    s = Script("x", [], **m)
    tr, wt = Run(built["tool-" + d["driver"][1]], built["clishim"], s).run()
    ev = wt if len(d["driver"]) > 2 else tr
    print(json.dumps(m))
    for e in ev or []:
        print(json.dumps(e))
    v = validate({"x": ev or []}, d["module"])["x"]
    print(v)
    return 0 if v[0] else 1


def setup():
    build()
