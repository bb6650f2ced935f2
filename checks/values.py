"""P20, P21: events as values (Values.tla, ValuesTrace.tla) and as JSON (JsonText.tla, JsonGen.tla, JsonTrace.tla)."""
import random
from gen import *
from check import Check

DRV = os.path.join(VERIF, "driver")


def build():
    jobs = []
    src = os.path.join(DRV, "values.cpp")
    for v, incs in VARIANTS.items():
        inc = [os.path.join(REPO, d) for d in incs]
        for std in ("c++17", "c++20"):
            flags = [f"-std={std}", "-O1", "-g1", "-w", "-fsanitize=address", "-I" + DRV] + ["-I" + i for i in inc]
            jobs.append((f"val-{v}-{std}", lambda out, flags=flags: ["g++"] + flags + ["-o", out, src, "-pthread"], inc + [src, os.path.join(DRV, "clock.hpp")]))
    return build_many(jobs)


def build_tool():
    inc = [os.path.join(DRV, "fakewatch"), DRV, os.path.join(REPO, "devel", "include")]
    src = os.path.join(REPO, "src", "wtr", "watcher", "main.cpp")
    try:
        return build_many([("faketool", lambda out: ["g++", "-std=c++17", "-O1", "-w"] + ["-I" + i for i in inc] + ["-o", out, src, "-pthread"], inc[:2] + inc[2:] + [src])])["faketool"]
    except CheckError as e:
        log("the tool can not be built over a stand-in watcher: " + str(e)[-600:])
        return None


def hx(s):
    return (s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")).hex()


def toks(s):
    return [c if " " <= c <= "~" else f"U+{ord(c):04X}" for c in s]


def text(t):
    """What a conversion gave, as text; None if it is not valid."""
    try:
        return bytes.fromhex(t["n"]).decode("utf-8") if "n" in t else "".join(chr(c) for c in t["w"])
    except (ValueError, OverflowError):
        return None


class Harness:
    def __init__(self, binary):
        self.binary = binary

    def run(self, scripts):
        """Runs the scripts; returns id -> list of answers. A script which kills the harness ends with a death."""
        res, todo = {}, list(scripts)
        while todo:
            inp = "".join("script %s\n%s\n" % (s.id, "\n".join(s.cmds)) for s in todo)
            p = subprocess.run([self.binary], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(ENV, ASAN_OPTIONS="detect_leaks=1"), timeout=300)
            cur, last = None, None
            for l in p.stdout.decode("utf-8", "replace").splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    d = {"o": "bad", "what": "unreadable"}
                if "id" in d:
                    last = d["id"]
                    cur = res[last] = []
                elif cur is not None:
                    cur.append(d)
            if p.returncode == 0:
                break
            if last is None:
                raise CheckError("the values harness does not run: " + p.stderr.decode(errors="replace")[-800:])
            leak = b"LeakSanitizer" in p.stderr
            res[last].append({"o": "bad", "what": "leak" if leak else "died"})
            ids = [s.id for s in todo]
            todo = todo[ids.index(last) + 1:]
        return res


def run_split(binary, scripts, jobs=JOBS):
    k = max(1, (len(scripts) + jobs - 1) // jobs)
    parts = [scripts[i:i + k] for i in range(0, len(scripts), k)]
    res = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda p: Harness(binary).run(p), parts):
            res.update(r)
    return res


# ------------------------------------------------------------------ P21
PATHS = ["", "a", "/a", "/a/b", "/a b", "/q\"", "/日本", "/" + "n" * 300, "/a/", ".", "/\U0001f600"]
TIMES = [0, 1, -1, 9, 10, 99, -10, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 63) - 1, -(1 << 63), 1700000000123456789, 999999999, 1000000000]


def value_script(sid, hist, rng):
    ps = rng.sample(PATHS, 4)
    ts = rng.sample(TIMES, 4)
    es, ks = rng.sample(range(6), 2), rng.sample(range(6), 2)
    cm = []
    hist = [dict(h, v=dict(h["v"], e=es[h["v"]["e"]], k=ks[h["v"]["k"]])) for h in hist]
    for h in hist:
        v = h["v"]
        if h["o"] == "new":
            cm.append(f"new {h['s']} {hx(ps[v['p']])or '%'} {v['e']} {v['k']} {ts[v['t']]}")
        elif h["o"] == "with":
            cm.append(f"with {h['s']} {h['a']} {h['b']} {ts[v['t']]}")
        elif h["o"] == "copy":
            cm.append(f"copy {h['s']} {h['a']}")
        elif h["o"] == "drop":
            cm.append(f"drop {h['s']}")
        elif h["o"] == "eq":
            cm.append(f"eq {h['a']} {h['b']}")
        else:
            cm.append(f"show {h['s']}")
    full = set()
    for h in hist:
        if h["o"] in ("new", "with", "copy"):
            full.add(h["s"])
        elif h["o"] == "drop":
            full.discard(h["s"])
    # in the end everything is compared with everything and looked at
    cm += [f"eq {a} {b}" for a in sorted(full) for b in sorted(full)] + [f"show {a}" for a in sorted(full)]
    return Script(sid, cm, want=[(h["o"], h["v"], ps, ts) for h in hist if h["o"] in ("new", "with")])


def value_trace(s, ans):
    ev = []
    names = s.meta.get("want")
    n = 0
    for d in ans:
        o = d["o"]
        if o == "new":
            # what was asked for; the time is the one the event took from the clock
            _, v, ps, ts = names[n]
            n += 1
            ev.append({"o": o, "s": d["s"], "v": {"t": d["v"]["t"], "p": hx(ps[v["p"]]), "e": v["e"], "k": v["k"]}})
            ev.append({"o": "show", "s": d["s"], "v": d["v"]})
        elif o == "with":
            n += 1
            ev.append({"o": o, "s": d["s"], "a": d["a"], "b": d["b"], "v": {"t": d["v"]["t"]}})
            ev.append({"o": "show", "s": d["s"], "v": d["v"]})
        elif o in ("effect", "type", "number"):
            ev.append({"o": o, "v": d["v"], "texts": [text(t) or "?" for t in d["texts"]]})
        elif o == "path":
            p = bytes.fromhex(d["v"]).decode()
            ev.append({"o": o, "v": "".join(toks(p)), "texts": ["?" if text(t) is None else "".join(toks(text(t))) for t in d["texts"]]})
        else:
            ev.append(d)
    return ev or [{"o": "bad", "what": "no answer"}]


def values(c, bins):
    m = 10 if THOROUGH else 1
    rng = random.Random(seeded("values"))
    ss = []
    hs = uniq(behaviours("Values", N=2, MaxOps=2, Paths=[1, 2], Effects=[0, 1], Types=[0, 1], Times=[1, 2]))
    ss += [value_script(f"pair-{i}", h, rng) for i, h in enumerate(hs)]
    hs = uniq(behaviours("Values", N=2, MaxOps=4, Paths=[1], Effects=[0], Types=[1], Times=[1, 2]))
    ss += [value_script(f"small-{i}", h, rng) for i, h in enumerate(hs)]
    hs = uniq(simulate("Values", 1500 * m, 40, seeded("vals") % (1 << 31), N=4, MaxOps=10, Paths=[0, 1], Effects=[0, 1], Types=[0, 1], Times=[0, 1, 2]))
    ss += [value_script(f"long-{i}", h, rng) for i, h in enumerate(hs)]
    ss += [Script("names-0", [f"effect {v}" for v in range(6)] + [f"type {v}" for v in range(6)])]
    nums = set(TIMES)
    for b in range(64):
        nums |= {x for x in ((1 << b) - 1, 1 << b, (1 << b) + 1, -(1 << b), -(1 << b) + 1, -(1 << b) - 1)}
    for d in range(19):
        nums |= {10 ** d, 10 ** d - 1, -(10 ** d), 10 ** d + 1, -(10 ** d) + 1}
    nums |= {rng.randrange(-(1 << 63), 1 << 63) >> rng.randrange(64) for _ in range(3000 * m)}
    nums = sorted(x for x in nums if -(1 << 63) <= x < 1 << 63)
    for i in range(0, len(nums), 40):
        ss.append(Script(f"numbers-{i}", [f"number {x}" for x in nums[i:i + 40]]))
    ps = [p for p in PATHS if p] + ["/a//b", "//", "a/../b"] + ["/" + "".join(rng.choice("ab\"\\/\n\x01é日\U0001f600 ") for _ in range(rng.randrange(1, 30))) for _ in range(300 * m)]
    for i in range(0, len(ps), 20):
        ss.append(Script(f"paths-{i}", [f"path {hx(p)}" for p in ps[i:i + 20]]))
    everywhere(c, bins, ss, value_trace, "ValuesTrace")


def everywhere(c, bins, ss, trace, module):
    """Each script on each build; what they have in common is judged once."""
    def run(scripts, jobs=JOBS):
        res = {}
        for key, b in bins.items():
            part = [s for s in scripts if s.meta["key"] == key]
            if part:
                r = run_split(b, part, jobs)
                res.update({s.id: trace(s, r.get(s.id, [])) for s in part})
        return res
    c.run_with(run, run, [Script(key + ":" + s.id, s.cmds, **dict(s.meta, key=key)) for key in bins for s in ss], module, sorted(bins))


# ------------------------------------------------------------------ P20
def shape(d):
    return {"t": d["t"], "p": toks(bytes.fromhex(d["p"]).decode()), "e": d["e"], "k": d["k"], "as": [shape(x) for x in d["as"]]}


def json_events(m):
    rng = random.Random(seeded("json"))
    one = lambda s: "".join(chr(int(x[2:], 16)) if x.startswith("U+") and len(x) > 1 else x for x in s)
    _, out, _, _ = tlc("JsonGen", cfg=with_consts("JsonGen", MaxLen=3 if THOROUGH else 2, GEN=True))
    words = sorted({one(x) for x in tagged(out)})
    evs = []
    T = lambda: rng.choice(TIMES) if rng.random() < .3 else rng.randrange(-(1 << 63), 1 << 63) >> rng.randrange(64)
    for i, w in enumerate(words):
        p = "/" + w if i % 2 else w or "x"
        evs.append([(p, i % 6, i // 6 % 6, T())])
        evs.append([("/p" + w, i // 6 % 6, i % 6, T()), (w or "/y", i % 6, i // 3 % 6, T())])
    for e in range(6):
        for k in range(6):
            evs.append([("/f", e, k, T())])
            for e2 in range(6):
                evs.append([("/f", e, k, T()), ("/g", e2, (k + e2) % 6, T())])
    chars = [chr(i) for i in range(1, 128)] + ["é", "ß", "日", "本", "\u2028", "\u2029", "\ufeff", "\uffff", "\U0001f600", "\U0010ffff", "\u0080", "\u07ff", "\u0800", "\ue000"]
    for ch in chars:
        evs.append([("/x" + ch + "y", 2, 1, T())])
    for _ in range(400 * m):
        w = lambda: "/" + "".join(rng.choice(chars) for _ in range(rng.randrange(0, 24)))
        evs.append([(w(), rng.randrange(6), rng.randrange(6), T())] + ([(w(), rng.randrange(6), rng.randrange(6), T())] if rng.random() < .4 else []))
    evs.append([("/" + "\"" * 200, 2, 1, 5)])
    evs.append([("/" + "d\n" * 120, 0, 0, 5), ("/" + "\\" * 250, 0, 0, 6)])
    return evs


def jcmd(e):
    return " ".join(f"{hx(p)} {et} {kt} {t}" for p, et, kt, t in e)


def serialized(c, bins):
    m = 8 if THOROUGH else 1
    evs = json_events(m)
    ss = [Script(f"json-{i}", ["json " + jcmd(e) for e in evs[i:i + 8]]) for i in range(0, len(evs), 8)]

    def trace(s, ans):
        ev = []
        for d in ans:
            if d["o"] == "bad":
                ev.append({"form": "bad", "what": d["what"]})
                continue
            for t in d["texts"]:
                x = text(t)
                ev.append({"form": "bad", "what": "not Unicode"} if x is None else {"form": "member", "text": toks(x), "event": shape(d["v"])})
        # the string types agree most of the time: judging one text once is enough
        seen, out = set(), []
        for e in ev:
            j = json.dumps(e)
            if j not in seen:
                seen.add(j)
                out.append(e)
        return out or [{"form": "bad", "what": "no answer"}]
    everywhere(c, bins, ss, trace, "JsonTrace")
    tool = build_tool()
    c.cov["tool"] = bool(tool)
    if tool:
        d = scratch("wvtool")

        def line_of(e, spec):
            t = lambda i: spec[i][3]
            base = {"t": str(t(len(spec) - 1)), "p": toks(spec[0][0]), "e": spec[0][1], "k": spec[0][2], "as": []}
            if len(spec) > 1:
                base["as"] = [{"t": str(t(1)), "p": toks(spec[1][0]), "e": spec[1][1], "k": spec[1][2], "as": []}]
            return base

        def run(scripts, jobs=JOBS):
            def one(s):
                f = os.path.join(d, s.id.replace(":", "_"))
                with open(f, "w") as fh:
                    fh.write("\n".join(jcmd(e) for e in s.meta["evs"]) + "\n")
                try:
                    p = subprocess.run([tool, d], input=b"\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(ENV, FAKE_EVENTS=f), timeout=20)
                except subprocess.TimeoutExpired:
                    return s.id, [{"form": "bad", "what": "hang"}]
                lines = p.stdout.split(b"\n")[:-1]
                ev = []
                if len(lines) != len(s.meta["evs"]):
                    ev.append({"form": "bad", "what": f"{len(lines)} lines for {len(s.meta['evs'])} events"})
                for l, e in zip(lines, s.meta["evs"]):
                    try:
                        ev.append({"form": "object", "text": toks(l.decode()), "event": line_of(l, e)})
                    except UnicodeDecodeError:
                        ev.append({"form": "bad", "what": "not Unicode"})
                return s.id, ev
            with cf.ThreadPoolExecutor(jobs) as ex:
                return dict(ex.map(one, scripts))
        c.run_with(run, run, [Script(f"tool:json-{i}", [], evs=[list(map(list, e)) for e in evs[i:i + 40]]) for i in range(0, len(evs), 40)], "JsonTrace", ["tool"])


def setup():
    build()
    build_tool()


def check(pid):
    c = Check(pid, "model_checking")
    bins = build()
    c.cov["variants"] = list(bins)
    if pid == "P21":
        c.rule = "histories of Values.tla on real events, every name in every string type, numbers at every boundary; non-trivial: distinct recordings of more than 200 characters"
        c.explored(explore("Values", N=3, MaxOps=5 if THOROUGH else 4))
        values(c, bins)
    else:
        c.rule = "events with every text of JsonGen.tla as a path, every pair of names, random longer texts; each produced text read by the parser of JsonText.tla"
        c.explored(explore("JsonGen", MaxLen=3 if THOROUGH else 2))
        serialized(c, bins)
    return c.finish()


def replay(d):
    print(json.dumps(d["trace"][-1]))
    bins = build()
    print("script:", d["script"])
    key = d["meta"].get("key")
    v = validate({"x": d["trace"]}, d["module"])["x"]
    if key in bins:
        s = Script("x", d["script"].splitlines()[1:], **{k: v for k, v in d["meta"].items()})
        for a in run_split(bins[key], [s], 1)["x"]:
            print(json.dumps(a))
    print(v)
    return 0 if v[0] else 1
