"""Frame of every check: runs scripts on the drivers, judges the recordings with
the specification, confirms rejections, writes evidence, prints verdicts."""
import json, os, sys, time
from core import *
import core

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {"evaluations": 0, "traces_validated_against_impl": 0, "explorations": [], "samples": [], "families": {}, "unreproduced": 0}
        self.nontrivial = set()
        self.rule = ""
        self.violations = []
        self.known = []
        self.assumptions = []

    # -------------------------------------------------- known findings
    def known_keys(self):
        res = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for l in f:
                    l = l.strip()
                    if l.startswith("known: property=" + self.pid + " "):
                        res.append(l.split(" ", 2)[2])
        return res

    # -------------------------------------------------- bookkeeping
    def explored(self, info):
        self.cov["explorations"].append(info)

    def sample(self, s):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(s if len(str(s)) < 3000 else str(s)[:3000])

    def family(self, name, n):
        self.cov["families"][name] = self.cov["families"].get(name, 0) + n

    def violation(self, what, data):
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, f"{self.pid}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, **data), f, indent=1)
        self.violations.append((what, path))
        log(f"[{self.pid}] violation: {what}")

    # -------------------------------------------------- scripts on drivers
    def run_stream(self, bins, scripts, module="WatchTrace", norm=normalise, env=None, max_report=4, timeout_ms=6000, only=None):
        """Runs the scripts on each driver, judges every recording; confirmed rejections are violations."""
        byid = {s.id: s for s in scripts}
        if len(byid) != len(scripts):
            raise CheckError("script ids are not unique")
        for s in scripts:
            self.family(s.id.rsplit("-", 1)[0], 1)
        judged = {}
        recs = {}
        for key, b in bins.items():
            r = run_scripts(b, scripts, env=env, timeout_ms=timeout_ms)
            if len(r) < len(scripts):
                self.cov["skipped"] = self.cov.get("skipped", 0) + len(scripts) - len(r)
            for sid, rec in r.items():
                tid = f"{'/'.join(key)}:{sid}"
                judged[tid] = norm(rec, byid[sid].meta)
                recs[tid] = (key, b, byid[sid])
        self.cov["evaluations"] += len(judged)
        # recordings that are the same need judging once
        first = {}
        for tid, ev in judged.items():
            first.setdefault(json.dumps(ev, sort_keys=True), []).append(tid)
        verdict = validate({tids[0]: judged[tids[0]] for tids in first.values()}, module)
        full = {}
        for tids in first.values():
            for t in tids:
                full[t] = verdict[tids[0]]
        self.cov["traces_validated_against_impl"] += len(judged)
        for js in first:
            if len(js) > 200:
                self.nontrivial.add(hashlib.sha256(js.encode()).hexdigest()[:16])
        if scripts:
            t = next(iter(judged))
            self.sample({"script": recs[t][2].text().splitlines()[:40], "recorded": judged[t][:30], "verdict": full[t]})
        bad = [t for t, v in full.items() if not v[0]]
        reported = 0
        for t in bad:
            if reported >= max_report:
                break
            key, b, s = recs[t]
            hang = str(full[t][2]).startswith("hang") or str(full[t][2]).startswith("died")
            again = []
            for _ in range(3):
                r = run_scripts(b, [s], jobs=1, env=env, timeout_ms=15000 if hang else timeout_ms)
                ev = norm(r[s.id], s.meta)
                v = validate({"x": ev}, module)["x"]
                if not v[0]:
                    again.append((ev, v))
                if len(again) >= (2 if hang else 1):
                    break
            if len(again) >= (2 if hang else 1):
                ev, v = again[-1]
                reported += 2 if hang else 1
                self.violation(f"{t}: {v[2]} at event {v[1]}: {json.dumps(ev[v[1] - 1]) if 0 < v[1] <= len(ev) else ''}",
                               dict(driver=list(key), script=s.text(), meta=s.meta, trace=ev[:max(v[1], 1)], why=v[2], index=v[1], module=module))
            else:
                self.cov["unreproduced"] += 1
        return full, judged

    def run_with(self, run, again, scripts, module, key, max_report=4):
        """Like run_stream for anything else which turns scripts into traces: run(scripts) -> id -> events."""
        for s in scripts:
            self.family(s.id.rsplit("-", 1)[0], 1)
        byid = {s.id: s for s in scripts}
        if len(byid) != len(scripts):
            raise CheckError("script ids are not unique")
        judged = run(scripts)
        self.cov["evaluations"] += len(judged)
        self.cov["traces_validated_against_impl"] += len(judged)
        first = {}
        for sid, ev in judged.items():
            first.setdefault(json.dumps(ev, sort_keys=True), []).append(sid)
        verdict = validate({sids[0]: judged[sids[0]] for sids in first.values()}, module)
        for js in first:
            if len(js) > 200:
                self.nontrivial.add(hashlib.sha256(js.encode()).hexdigest()[:16])
        full = {t: verdict[sids[0]] for sids in first.values() for t in sids}
        if judged:
            t = next(iter(judged))
            self.sample({"script": byid[t].text().splitlines()[:20], "recorded": judged[t][:30], "verdict": full[t]})
        reported = 0
        for t in [s.id for s in scripts if not full[s.id][0]]:
            if reported >= max_report:
                break
            hang = str(full[t][2]).startswith("hang")
            for _ in range(3):
                ev = again([byid[t]], 1)[t]
                v = validate({"x": ev}, module)["x"]
                if not v[0]:
                    reported += 2 if hang else 1
                    self.violation(f"{t}: {v[2]} at event {v[1]}: {json.dumps(ev[v[1] - 1])[:400] if 0 < v[1] <= len(ev) else ''}",
                                   dict(driver=key, script=byid[t].text()[:20000], meta=byid[t].meta, trace=ev[:max(v[1], 1)], why=v[2], index=v[1], module=module))
                    break
            else:
                self.cov["unreproduced"] += 1
        return full, judged

    # -------------------------------------------------- the end
    def finish(self):
        wall = time.time() - self.t0
        c = self.cov
        c["states"] = core.TLC_STATS["states"]
        c["transitions"] = core.TLC_STATS["transitions"]
        c["distinct_nontrivial"] = len(self.nontrivial) if self.nontrivial else c.get("distinct_nontrivial", 0)
        c["rule"] = self.rule
        c["variants"] = c.get("variants", [])
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": c, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, self.pid + ".json")
        text = json.dumps(ev, indent=1)
        if len(text) > 60000:
            c["samples"] = [str(x)[:1500] for x in c["samples"]]
            text = json.dumps(ev, indent=1)
        with open(p, "w") as f:
            f.write(text)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if self.violations:
            what, path = self.violations[0]
            for w, q in self.violations:
                print(f"  {w}"[:600])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"OK property={self.pid} evaluations={c['evaluations']} traces={c['traces_validated_against_impl']} states={c['states']} wall={wall:.1f}s")
        return 0
