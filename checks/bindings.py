"""P16-P18: the language bindings over a stand-in C library, which plays the histories of Binding.tla; judged by BindTrace.tla."""
import random, select, socket, struct, threading
from gen import *
from check import Check

BIND = os.path.join(VERIF, "driver", "bind")
LANG = {"P16": "py", "P17": "node", "P18": "rust"}
NODE = "/opt/veriftools/node/node_modules"

# ------------------------------------------------------------------ building


def build_stub():
    wc = os.path.join(REPO, "watcher-c", "include")
    src = os.path.join(BIND, "stub.cpp")
    mk = lambda out: ["g++", "-std=c++17", "-O1", "-g1", "-shared", "-fPIC", "-I" + wc, "-Wl,-soname,libwatcherstub.so", "-o", out, src, "-pthread"]
    return build_many([("stub", mk, [wc, src])])["stub"]


def sh(cmd, cwd=None, env=None, wall=600):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=wall)
    if p.returncode != 0:
        raise CheckError("failed: " + " ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])


def build_py(d):
    stub = build_stub()
    shutil.copytree(os.path.join(REPO, "watcher-py", "watcher"), os.path.join(d, "watcher"), ignore=shutil.ignore_patterns("__pycache__"))
    libs = os.path.join(d, "watcher", ".wtr_watcher.mesonpy.libs")
    os.makedirs(libs, exist_ok=True)
    with open(os.path.join(d, "watcher", "watcher.py")) as f:
        text = f.read()
    versions = set(re.findall(r"\b(\d+\.\d+\.\d+)\b", text))
    for v in versions or {"0.0.0"}:
        shutil.copy(stub, os.path.join(libs, f"libwatcher-c.so.{v}"))
    return [sys.executable, "-B", os.path.join(BIND, "harness.py"), d]


def build_node(d):
    stub = build_stub()
    nd = os.path.join(REPO, "watcher-nodejs", "lib")
    wc = os.path.join(REPO, "watcher-c", "include")
    inputs = [nd, wc, stub]
    shutil.copy(stub, os.path.join(d, "libwatcherstub.so"))
    mk = lambda out: ["g++", "-std=c++17", "-O1", "-g1", "-w", "-shared", "-fPIC", "-DNODE_GYP_MODULE_NAME=watcher_napi", "-I/usr/include/node", "-I" + wc, "-o", out,
                      os.path.join(nd, "watcher-napi.cpp"), stub, "-Wl,-rpath,$ORIGIN/../.."]
    so = build_many([("napi", mk, inputs)])["napi"]
    rel = os.path.join(d, "build", "Release")
    os.makedirs(rel)
    os.makedirs(os.path.join(d, "out"))
    shutil.copy(so, os.path.join(rel, "watcher-napi.node"))
    js = os.path.join(d, "out", "watcher.mjs")
    sh([os.path.join(NODE, ".bin", "esbuild"), os.path.join(nd, "watcher.ts"), "--format=esm", "--target=es2020", "--outfile=" + js])
    return ["node", "--expose-gc", os.path.join(BIND, "harness.mjs"), js]


def c_header_as_rust():
    """What bindgen makes of the C header, as far as the crate uses it."""
    with open(os.path.join(REPO, "watcher-c", "include", "wtr", "watcher-c.h")) as f:
        h = f.read()
    h = re.sub(r"/\*.*?\*/", "", h, flags=re.S)
    h = re.sub(r"//[^\n]*", "", h)
    ty = {"int8_t": "i8", "int64_t": "i64", "int32_t": "i32", "int16_t": "i16", "uint8_t": "u8", "int": "i32", "bool": "bool"}
    out = ["use core::ffi::c_char as _c_char; use core::ffi::c_void as _c_void;"]
    for t, n, v in re.findall(r"static\s+const\s+(\w+)\s+(\w+)\s*=\s*(-?\w+)\s*;", h):
        out.append(f"pub const {n}: {ty[t]} = {v};")
    body = re.search(r"struct\s+wtr_watcher_event\s*\{(.*?)\}", h, re.S).group(1)
    fields = []
    for m in body.split(";"):
        m = m.strip()
        if not m:
            continue
        n = re.search(r"(\w+)$", m).group(1)
        fields.append(f"pub {n}: " + ("*const _c_char" if "*" in m else ty[m.split()[-2] if m.split()[0] != "const" else m.split()[1]]))
    out.append("#[repr(C)] #[derive(Debug, Copy, Clone)] pub struct wtr_watcher_event { " + ", ".join(fields) + " }")
    out.append("pub type wtr_watcher_callback = ::std::option::Option<unsafe extern \"C\" fn(event: wtr_watcher_event, context: *mut _c_void)>;")
    out.append("extern \"C\" { pub fn wtr_watcher_open(path: *const _c_char, callback: wtr_watcher_callback, context: *mut _c_void) -> *mut _c_void; "
               "pub fn wtr_watcher_close(watcher: *mut _c_void) -> bool; }")
    return "\n".join(out) + "\n"


def build_rust(d):
    stub = build_stub()
    src = os.path.join(REPO, "watcher-rs", "src")
    h = tree_hash([src, stub, os.path.join(BIND, "main.rs"), os.path.join(REPO, "watcher-c", "include")], "2")
    final = os.path.join(BUILD, "rsbind-" + h)
    if not os.path.exists(final):
        c = os.path.join(d, "crate")
        os.makedirs(os.path.join(c, "src"))
        shutil.copy(os.path.join(src, "lib.rs"), os.path.join(c, "src", "lib.rs"))
        os.makedirs(os.path.join(c, "lib"))
        shutil.copy(stub, os.path.join(c, "lib", "libwatcherstub.so"))
        with open(os.path.join(c, "watcher_c.rs"), "w") as f:
            f.write(c_header_as_rust())
        with open(os.path.join(c, "build.rs"), "w") as f:
            f.write(f'fn main() {{ std::fs::copy("watcher_c.rs", std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("watcher_c.rs")).unwrap();\n'
                    f'println!("cargo:rustc-link-search=native={c}/lib"); println!("cargo:rustc-link-lib=dylib=watcherstub"); }}\n')
        shutil.copy(os.path.join(BIND, "main.rs"), os.path.join(c, "src", "main.rs"))
        with open(os.path.join(c, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "wtr_watcher"\nversion = "0.0.0"\nedition = "2021"\nbuild = "build.rs"\n[lib]\nname = "wtr_watcher"\npath = "src/lib.rs"\n'
                    '[[bin]]\nname = "bind"\npath = "src/main.rs"\n[features]\ndefault = ["serde"]\nserde = []\n'
                    '[dependencies]\nfutures = "0.3"\nserde = { version = "1", features = ["derive"] }\nserde_json = "1"\n[profile.dev]\ndebug = 1\n')
        shutil.copy("/opt/veriftools/crates.Cargo.lock", os.path.join(c, "Cargo.lock"))
        sh(["cargo", "build", "--offline", "--quiet"], cwd=c, env={"CARGO_TARGET_DIR": os.path.join(d, "target"), "HOME": os.environ.get("HOME", "/root"), "RUSTFLAGS": "-Awarnings"})
        os.makedirs(BUILD, exist_ok=True)
        tmp = final + f".tmp{os.getpid()}"
        shutil.copy(os.path.join(d, "target", "debug", "bind"), tmp)
        os.replace(tmp, final)
    shutil.copy(stub, os.path.join(d, "libwatcherstub.so"))
    return [final]


BUILDERS = {"py": build_py, "node": build_node, "rust": build_rust}


# ------------------------------------------------------------------ one process of a binding
class Dead(Exception):
    pass


class Proc:
    def __init__(self, cmd, d, wait=10.0):
        self.wait = wait
        self.logpath = os.path.join(d, f"log{id(self)}")
        open(self.logpath, "w").close()
        self.off = 0
        a, b = socket.socketpair()
        self.sock = a
        env = dict(ENV, STUB_LOG=self.logpath, STUB_FD=str(b.fileno()), LD_LIBRARY_PATH=d, MALLOC_PERTURB_="165", HOME=d)
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, pass_fds=[b.fileno()], cwd=d, bufsize=0)
        b.close()

    def _line(self, fd, what):
        buf = b""
        end = time.time() + self.wait
        while not buf.endswith(b"\n"):
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                raise Dead("hang:" + what)
            try:
                x = os.read(fd.fileno(), 1) if not isinstance(fd, socket.socket) else fd.recv(1)
            except OSError:
                x = b""
            if not x:
                raise Dead("died")
            buf += x
        return buf.decode().strip()

    def say(self, line):
        try:
            self.p.stdin.write((line + "\n").encode())
        except OSError:
            raise Dead("died")
        return self._line(self.p.stdout, line.split()[0])

    def c(self, line, values=()):
        text = "".join(f"ev {t} {p} {a} {e} {k}\n" for t, p, a, e, k in values) + line + "\n"
        try:
            self.sock.sendall(text.encode())
        except OSError:
            raise Dead("died")
        return self._line(self.sock, line.split()[0])

    def log(self):
        with open(self.logpath) as f:
            f.seek(self.off)
            t = f.read()
            self.off = f.tell()
        return [json.loads(x) for x in t.splitlines()]

    def end(self):
        """Whether the process ends by itself when there is nothing left to do."""
        try:
            self.p.stdin.close()
            self.p.wait(timeout=self.wait)
            ok = self.p.returncode == 0
        except (subprocess.TimeoutExpired, OSError):
            ok = False
        self.kill()
        return ok

    def kill(self):
        self.sock.close()
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


NAMES = ["/a", "/tmp/plain", "/q\"uo\"te", "/ba\\ck\\", "/new\nline", "/tab\t", "/\x01\x1f\x7f", "/ünï", "/日本語", "/\U0001f600", "/\u2028sep", "/ space ", "/%s%n", "/{}", "/'", "s/self/live@/x",
         "/" + "z" * 254, "/" + "/".join(["d" * 200] * 20), "/e\u0301", "/\ufeffbom", "/null", "/a b", "/\uffff"]
RAW = [b"/\xff\xfe", b"/ok\x80", b"/\xc3", b"/\xed\xa0\x80", b"/a\xe9b/c\xf0\x9f/d", b"\xf4\x90\x80\x80", b"\xc0\xaf/x"]
TIMES = [0, 1, -1, 999, 1700000000123456789, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, -(1 << 63), -(1 << 53) - 1, 1 << 31, -(1 << 31), (1 << 32) + 5]


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


class Values:
    def __init__(self, rng, lang):
        self.rng, self.lang, self.n = rng, lang, 0
        # every pair of codes comes, in some order
        self.codes = [(e, k) for e in range(6) for k in range(6)]
        rng.shuffle(self.codes)

    def path(self):
        if self.rng.random() < .1:
            return hx(self.rng.choice(RAW))
        if self.rng.random() < .3:
            return hx(f"/n{self.n}")
        return hx(self.rng.choice(NAMES))

    def one(self):
        self.n += 1
        e, k = self.codes[self.n % 36]
        t = self.rng.choice(TIMES) if self.rng.random() < .5 else self.rng.randrange(-(1 << 63), 1 << 63)
        return (t, self.path(), self.path() if self.rng.random() < .4 else "-", e, k)

    def some(self, n):
        return [self.one() for _ in range(n)]


WATCHED = ["/tmp", ".", "/日本", "/with space", "rel/ative", "/q\"", "/\U0001f600", "/" + "y" * 300, "/x/" * 400, "/" + "z/" * 2047, "/" + "z/" * 2047 + "z", "/" + "z/" * 2048, "/" + "é/" * 3000, ""]


def play(pr, lang, s):
    """Plays one history; returns what was recorded, in the words of BindTrace.tla."""
    rng = random.Random(seeded(s.id))
    vals = Values(rng, lang)
    ev = [{"k": "lang", "lang": lang}]
    cid, cnum, open_, pend = {}, {}, {}, {}
    fix = (lambda t: repr(float(t))) if lang == "node" else str

    def take():
        for e in pr.log():
            k = e["k"]
            if k == "copen":
                cnum[e["c"]] = len(cnum) + 1
                cid[cur[0]] = e["c"]
                ev.append({"k": k, "p": e["p"], "ok": e["ok"]})
            elif k == "cev":
                v = e["v"]
                v["t"] = fix(v["t"])
                if lang != "py":  # text; what is no text in it is replaced
                    v["p"], v["a"] = (hx(bytes.fromhex(v[x]).decode("utf-8", "replace")) for x in ("p", "a"))
                ev.append({"k": k, "c": cnum[e["c"]], "v": v})
                for b, c in cid.items():
                    if c == e["c"]:
                        pend[b] = pend.get(b, 0) + 1
            elif k == "bev":
                for x in ("v", "j"):
                    if "t" in e[x]:
                        e[x]["t"] = fix(e[x]["t"]) if isinstance(e[x]["t"], (int, float)) else "?"
                ev.append(e)
                pend[e["b"]] = pend.get(e["b"], 0) - 1
            elif k in ("cclose", "cclosed"):
                e["c"] = cnum.get(e["c"], -1) if e["c"] else 0
                ev.append(e)
            else:
                ev.append(e)

    cur = [0]

    def look(b):
        if lang != "py" and open_.get(b):
            pr.say(f"look {b} {max(0, pend.get(b, 0))} 4000")
            take()

    def end(b, how, v, n):
        if cid.get(b) is None:
            return
        if open_.get(b) == "open":
            pr.c(f"onclose {cid[b]} {int(v)}", vals.some(n))
        if lang == "rust" and how == "drop":
            look(b)
        pr.say(f"{how} {b}" + (" raise" if how == "leave" and rng.random() < .5 else ""))
        take()
        open_[b] = "" if how == "drop" else "closed"
    try:
        for h in s.meta["hist"]:
            b = h["b"]
            if h["c"] == "open":
                cur[0] = b
                whole = h["how"] != "nul"
                if not h["v"] and whole:
                    pr.c("refuse")
                if h["n"]:
                    pr.c("onopen", vals.some(h["n"]))
                p = hx(rng.choice(WATCHED + (RAW if lang == "py" else [])))
                if not whole:
                    at = rng.choice([0, 2, len(p)])
                    p = p[:at] + "00" + p[at:]
                ev.append({"k": "bopen", "p": p, "whole": whole})
                fl = rng.choice(["plain", "with", "angry", "withangry"])
                pr.say(f"open {b} {p} {fl}")
                take()
                if h["v"]:
                    open_[b] = "open"
                else:
                    cid[b] = None
            elif h["c"] == "emit":
                pr.c(f"emit {cid[b]}", vals.some(h["n"]))
                take()
            elif h["c"] == "storm":
                pr.c("storm " + " ".join(str(cid[x]) for x in cid if cid[x] and open_.get(x) == "open"), vals.some(h["n"]))
                take()
            elif h["c"] == "look":
                look(b)
            elif h["c"] == "gc":
                pr.say("gc")
            else:
                end(b, h["how"], h["v"], h["n"])
        for b in sorted(cid):
            if open_.get(b) == "open":
                end(b, "close", rng.random() < .5, 1)
            if open_.get(b):
                look(b)
        ev.append({"k": "fin"})
        pr.say("reset")
        if s.meta.get("exit"):
            ok = pr.end()
            if not ok:
                ev.append({"k": "bad", "what": "the process does not end although nothing is watched"})
            raise Dead("")
    except Dead as e:
        try:
            take()
        except (ValueError, KeyError):
            pass
        if str(e):
            ev.append({"k": "bad", "what": str(e)})
        return ev, True
    except KeyError as e:
        ev.append({"k": "bad", "what": "no C watcher was opened " + str(e)})
        return ev, True
    return ev, False


def runner(lang, cmd, d, wait=10.0):
    def run(scripts, jobs=JOBS):
        res, lock, it = {}, threading.Lock(), iter(list(scripts))

        def work():
            pr, n = None, 0
            while True:
                with lock:
                    s = next(it, None)
                if s is None:
                    break
                if pr is None or s.meta.get("exit"):
                    if pr:
                        pr.kill()
                    pr = Proc(cmd, d, wait)
                ev, dead = play(pr, lang, s)
                if dead:
                    pr.kill()
                    pr = None
                with lock:
                    res[s.id] = ev
            if pr:
                pr.kill()
        ts = [threading.Thread(target=work) for _ in range(jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res
    return run


def scripts(lang):
    m = 8 if THOROUGH else 1
    hows = {"py": ["close", "drop", "leave"], "node": ["close"], "rust": ["close", "drop"]}[lang]
    q = lang != "py"
    hs = []
    for i, h in enumerate(uniq(behaviours("Binding", N=1, MaxCalls=4, Bursts=[1, 2], Hows=hows, Queued=q))):
        hs.append(Script(f"all-{i}", [json.dumps(h)], hist=h))
    for i, h in enumerate(uniq(behaviours("Binding", N=2, MaxCalls=3, Bursts=[2], Hows=hows, Queued=q))):
        hs.append(Script(f"two-{i}", [json.dumps(h)], hist=h))
    for i, h in enumerate(simulate("Binding", 250 * m, 30, seeded("bind" + lang) % (1 << 31), N=3, MaxCalls=12, Bursts=[1, 2, 5, 40], Hows=hows, Queued=q)):
        hs.append(Script(f"long-{i}", [json.dumps(h)], hist=h))
    rng = random.Random(seeded("storm" + lang))
    for i in range(12 * m):
        n = rng.randint(1, 4)
        h = [dict(c="open", b=b, n=0, v=True, how="") for b in range(1, n + 1)]
        for _ in range(2):
            h.append(dict(c="storm", b=0, n=rng.choice([30, 100, 300]), v=True, how=""))
        hs.append(Script(f"storm-{i}", [json.dumps(h)], hist=h))
    for i, n in enumerate([1023, 1024, 1025, 2100] + ([5000, 20000] if THOROUGH else [])):
        h = [dict(c="open", b=1, n=1, v=True, how=""), dict(c="emit", b=1, n=n, v=True, how="")]
        h += [dict(c="end", b=1, n=1, v=True, how="close")] if i % 2 else [dict(c="look", b=1, n=0, v=True, how="")]
        hs.append(Script(f"burst-{i}", [json.dumps(h)], hist=h))
    # many objects, one after another and together
    h = []
    for b in range(1, 41):
        h += [dict(c="open", b=b, n=b % 2, v=True, how=""), dict(c="emit", b=b, n=3, v=True, how="")]
        if b % 3:
            h += [dict(c="end", b=b, n=1, v=bool(b % 2), how=hows[b % len(hows)])]
        if lang == "node":
            h.append(dict(c="gc", b=0, n=0, v=True, how=""))
    hs.append(Script("row-0", [json.dumps(h)], hist=h))
    if lang == "node":
        for i in range(6):
            h = [dict(c="open", b=b, n=int(i < 3), v=i < 3, how="nul" if i == 5 else "") for b in range(1, 2 + i % 3)]
            hs.append(Script(f"exit-{i}", [json.dumps(h)], hist=h, exit=True))
    return hs


def check(pid):
    lang = LANG[pid]
    c = Check(pid, "model_checking")
    c.rule = ("every history of Binding.tla up to the bounds and random longer ones, played by a stand-in C library under the real binding; non-trivial: distinct recordings of more than 200 characters")
    c.cov["variants"] = [lang]
    c.explored(explore("Binding", Queued=lang != "py", **(dict(N=3, MaxCalls=7) if THOROUGH else {})))
    d = scratch("wvbind")
    cmd = BUILDERS[lang](d)
    c.run_with(runner(lang, cmd, d), runner(lang, cmd, d, 20.0), scripts(lang), "BindTrace", [lang])
    return c.finish()


def replay(d):
    lang = d["driver"][0]
    t = scratch("wvbind")
    cmd = BUILDERS[lang](t)
    s = Script(d["script"].splitlines()[0].split(" ", 1)[1], [], **d["meta"])
    ev = runner(lang, cmd, t, 20.0)([s], jobs=1)[s.id]
    v = validate({"x": ev}, "BindTrace")["x"]
    for i, e in enumerate(ev):
        print(i + 1, json.dumps(e))
    print(v)
    return 0 if v[0] else 1
