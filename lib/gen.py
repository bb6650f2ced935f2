"""Behaviours of the specifications, turned into scripts for the driver."""
import concurrent.futures as cf
import hashlib, json, os, random, re
from core import *

ODD = ["a", "b", "c", "x y", "q\"uo", "ba\\ck", "ünïcode", "tab\there", ".dot", "-dash", "*st?r", "n\nl", "#%25", "z" * 200, "日本", "e'", "%", "@at:", "..x", "...", " lead", "trail ", "~", "\udcff\udcfe", "very.long.name-" * 8, "a.b", "A"]


def override(cfgtext, **consts):
    for k, v in consts.items():
        if isinstance(v, bool):
            v = "TRUE" if v else "FALSE"
        elif isinstance(v, str):
            v = json.dumps(v)
        elif isinstance(v, (set, list, tuple)):
            v = "{" + ", ".join(json.dumps(x) if isinstance(x, str) else str(x) for x in v) + "}"
        cfgtext, n = re.subn(rf"^(\s*{k}) = .*$", lambda m: f"{m.group(1)} = {v}", cfgtext, flags=re.M)
        if not n:
            raise CheckError("no constant " + k)
    return cfgtext


def with_consts(module, **consts):
    """A copy of the configuration of a module with constants replaced; returns its path without .cfg."""
    d = scratch("wvcfg")
    inv = consts.pop("INV", None)
    with open(os.path.join(SPEC, module + ".cfg")) as f:
        t = override(f.read(), **consts)
    if inv is not None:
        t = re.sub(r"^(INVARIANTS?|PROPERTY|PROPERTIES) .*$", "", t, flags=re.M) + ("\nINVARIANTS " + inv if inv else "")
    p = os.path.join(d, module)
    with open(p + ".cfg", "w") as f:
        f.write(t)
    return p


def explore(module, workers=JOBS, wall=800, heap="6g", **consts):
    """Exhaustive check of a specification; a violated property is an error of the check."""
    _, out, dist, gen = tlc(module, cfg=with_consts(module, **consts), workers=workers, wall=wall, heap=heap)
    return {"module": module, "constants": {k: v if not isinstance(v, set) else sorted(v) for k, v in consts.items()}, "states": dist, "transitions": gen}


def simulate(module, num, depth, seed, wall=500, **consts):
    """Random behaviours of a specification (which is checked on the way); the scripts it printed."""
    _, out, dist, gen = tlc(module, cfg=with_consts(module, GEN=True, **consts), workers=1, wall=wall, heap="2g",
                            args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)])
    m = re.search(r"number of states generated: ([\d,]+)", out)
    if m:
        TLC_STATS["transitions"] += int(m.group(1).replace(",", ""))
    return tagged(out)


def behaviours(module, wall=500, **consts):
    """Every behaviour of a small instance of a specification, as scripts (the history is part of the state)."""
    cfg = with_consts(module, GEN=True, INV="", **consts)
    with open(cfg + ".cfg") as f:
        t = re.sub(r"^VIEW .*$", "", f.read(), flags=re.M)
    with open(cfg + ".cfg", "w") as f:
        f.write(t)
    _, out, dist, gen = tlc(module, cfg=cfg, workers=JOBS, wall=wall)
    return sorted(tagged(out), key=json.dumps)


def seeded(*parts):
    h = hashlib.sha256(repr((SEED,) + parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


# ------------------------------------------------------------------ file tree
def enum_ops(hist):
    return [h for h in hist if h["c"] == "op"]


KIN = ["a", "ab", "a b", "a.", "aa", "a-", "aab"]  # each the beginning of another


class Namer:
    def __init__(self, rng, odd):
        self.rng, self.odd, self.map = rng, odd, {"r": "r", "o": "o"}
        self.kin = not odd and rng.random() < .35

    def __call__(self, comp):
        if comp not in self.map:
            if self.odd:
                free = [x for x in ODD if x not in self.map.values()]
                self.map[comp] = self.rng.choice(free)
            elif self.kin:
                self.map[comp] = self.rng.choice([x for x in KIN if x not in self.map.values()] or [comp])
            else:
                self.map[comp] = comp
        return self.map[comp]

    def path(self, p):
        return "/".join(self(x) for x in p)


def op_cmd(o, rng, nm, plain, links):
    p, q = nm.path(o["p"]), nm.path(o["q"])
    k = o["op"]
    if k == "mk":
        if o["dir"]:
            return ["fs", "mkdir", enc(p)]
        v = rng.choice(["creat"] * 4 + (["link"] if links else []) + (["symlink", "symdir", "fifo", "symbad"] if plain else []))
        if v == "link":
            return ["fs", "link", enc(p), enc("src")]
        if v == "symlink":
            return ["fs", "symlink", enc(p), enc("src")]
        if v == "symdir":
            return ["fs", "symlink", enc(p), enc("away")]
        if v == "symbad":
            return ["fs", "symlink", enc(p), enc("nowhere")]
        return ["fs", v, enc(p)]
    if k == "mod":
        return ["fs", rng.choice(["write", "write", "trunc", "otrunc"]), enc(p)]
    if k == "rm":
        return ["fs", "rmdir" if o["dir"] else "unlink", enc(p)]
    if k == "mv":
        return ["fs", "rename", enc(p), enc(q)]
    if k == "xch":
        return ["fs", "xchg", enc(p), enc(q)]
    raise CheckError("op " + k)


SILENT = ["chmod", "utime", "stat", "readf", "openw", "lsdir"]


def tree_script(sid, hist, gran="batch", odd=False, silent=0.0, probe=True, close=True, rng=None, untyped=False, pre=(), mark="inotify_add_watch", bads=()):
    """A script that leads the real watcher through a behaviour of TreeModel (or of Fan)."""
    rng = rng or random.Random(seeded(sid))
    nm = Namer(rng, odd)
    ops = enum_ops(hist)
    plain = not any(o["op"] == "mod" for o in ops)
    links = not any(o["op"] in ("mv", "xch") for o in ops)  # renaming one link over another does nothing
    until = {"batch": "wait", "walk": "mark,list,wait", "cb": "cb,wait"}[gran]
    cm = list(pre) + ["fs mkdir r", "fs mkdir o", "fs mkdir away", "fs mkdir away/inner", "fs creat src"] + (["dtunknown"] if untyped else [])
    opened = False
    fresh = False
    known = [["r"]]
    refused = []
    for h in hist:
        c = h["c"]
        if c == "refuse":
            fn, errs = (mark, [28, 13, 12, 2]) if h["k"] == "mark" else ("opendir", [24, 13, 12, 23])
            cm.append(["fault", fn, "0", "0", str(rng.choice(errs)), enc(nm.path(h["p"]))])
            refused.append(h)
        elif c == "op":
            op = op_cmd(h, rng, nm, plain, links)
            cm += ["weave 0", op, f"woven 0 {h['wv']}"] if h.get("wv") else [op]
            known.append(h["q"] if h["q"] else h["p"])
            if silent and rng.random() < silent:
                s = rng.choice(SILENT + (["away"] if not opened or True else []))
                if s == "away":
                    cm.append(rng.choice(["fs creat away/f", "fs unlink away/f", "fs creat away/inner/g", "fs unlink away/inner/g", "fs write away/f"]))
                else:
                    cm.append(["fs", s, enc(nm.path(rng.choice(known)))])
        elif c == "open":
            cm += ["open 0 r stops=" + (until if gran == "walk" else "wait"), "arrive 0"]
            opened = True
        elif c == "walk":
            if gran == "walk":
                cm.append("go 0 until=" + until)
        elif c == "dlv":
            if h.get("what") == "bad":
                cm.append(f"fanbad 0 {rng.choice(bads)} {h['at']}")
            elif h.get("what") == "ovf":
                cm.append(f"ovf 0 {h['at']}")
            elif h.get("ovf", -1) >= 0:
                cm.append(f"ovf 0 {h['ovf']}")
            cm.append(f"go 0 n={h['n']} until={until}")
            fresh = True
        elif c == "cb":
            if gran == "cb" and not fresh:
                cm.append("go 0 until=" + until)
            fresh = False
    if not opened:
        cm += ["open 0 r stops=wait", "arrive 0"]
    cm.append("idle 0")
    if probe:
        # whatever happened: everything that is a directory now must be watched, under its present path
        cm += probes(hist, nm)
    if close:
        cm += ["close 0 0", "cjoin 0"]
    return Script(sid, cm, gran=gran)


def final_dirs(hist):
    """Paths of the directories of the tree r after a behaviour."""
    tree = {"r": {}, "o": {}}

    def at(p):
        x = tree
        for c in p:
            if x is None or c not in x:
                return None
            x = x[c]
        return x

    for h in hist:
        if h["c"] != "op":
            continue
        p, q = h["p"], h["q"]
        d = at(p[:-1])
        if d is None:
            continue
        if h["op"] == "mk":
            d[p[-1]] = {} if h["dir"] else None
        elif h["op"] == "rm":
            d.pop(p[-1], None)
        elif h["op"] == "mv":
            e = at(q[:-1])
            if e is not None and p[-1] in d:
                e[q[-1]] = d.pop(p[-1])
        elif h["op"] == "xch":
            e = at(q[:-1])
            if e is not None and p[-1] in d and q[-1] in e:
                d[p[-1]], e[q[-1]] = e[q[-1]], d[p[-1]]
    res = []

    def walk(x, p):
        res.append(p)
        for k in sorted(x):
            if x[k] is not None:
                walk(x[k], p + [k])
    if "r" in tree:
        walk(tree["r"], ["r"])
    return res


def probes(hist, nm):
    cm = []
    for d in final_dirs(hist):
        cm.append(["fs", "creat", enc(nm.path(d) + "/probe")])
    cm.append("idle 0")
    for d in final_dirs(hist):
        cm.append(["fs", "unlink", enc(nm.path(d) + "/probe")])
    cm.append("idle 0")
    return cm


def uniq(hists):
    seen, res = set(), []
    for h in hists:
        k = json.dumps(h)
        if k not in seen:
            seen.add(k)
            res.append(h)
    return res


def families(fams, module="TreeModel"):
    """fams: list of dicts (name, num, depth, consts, opts). Simulated in parallel; returns scripts."""
    def one(f):
        return uniq(simulate(module, f["num"], f.get("depth", 120), seeded(f["name"]) % (1 << 31), **f["consts"]))
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        res = list(ex.map(one, fams))
    out = []
    for f, hs in zip(fams, res):
        if f.get("opts", {}).get("woven"):
            hs = [h for h in hs if any(x.get("wv") for x in h)]
        for i, h in enumerate(hs):
            rng = random.Random(seeded(f["name"], i))
            o = dict(f.get("opts", {}))
            odd = o.pop("odd", 0)
            o.pop("woven", 0)
            out.append(tree_script(f"{f['name']}-{i}", h, gran=f["consts"].get("Gran", "batch"), odd=rng.random() < odd, rng=rng, **o))
    return out
