#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property: check.py <ID>  (environment: VERIF_SEED, VERIF_TIER).

Builds the simulator from /repo's working tree, explores seeds on all cores, confirms every violation by an exact
replay, minimises it, writes the replay file, the evidence file and the verdict line."""
import collections, hashlib, json, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from plan import PROPS, GLOBAL_ASSUMPTIONS

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 4)
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings(prop):
    """finding: property=C06 scenario=... cls=... replay=findings/x.replay -- description"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+scenario=(\S+)\s+config=(\S+)\s+cls=(\S+)\s+replay=(\S+)\s+--\s+(.*)", l)
            if m and m.group(1) == prop:
                out.append(dict(scenario=m.group(2), config=m.group(3), cls=m.group(4), replay=m.group(5), what=m.group(6)))
    return out


def trace_text(scen, rec, ops=None, faults=None, sched=None, params=None):
    o = ["scenario %s" % scen, "seed %d" % rec["seed"]]
    if "plan" not in rec or rec.get("by_seed"): return "\n".join(o + ["generate 1"]) + "\n"     # the process died before it could record its decisions
    for k, v in sorted((params if params is not None else rec["plan"]["p"]).items()): o.append("param %s %d" % (k, v))
    for op in (rec["plan"]["ops"] if ops is None else ops): o.append("op " + " ".join(map(str, op)))
    for f in (rec["faults"] if faults is None else faults): o.append("fault %s %d %d" % tuple(f))
    for s in (rec["sched"] if sched is None else sched): o.append("sched %d %d" % tuple(s))
    return "\n".join(o) + "\n"


class Replayer:
    def __init__(self, exe): self.exe = exe; self.dir = tempfile.mkdtemp(prefix="simrep"); self.n = 0; self.trials = 0
    def run(self, texts, wall=20):
        """replays traces in parallel; returns the result records"""
        files = []
        for t in texts:
            self.n += 1; f = os.path.join(self.dir, "t%d" % self.n); open(f, "w").write(t); files.append(f)
        self.trials += len(files)
        def go(fs):
            try: r = subprocess.run([self.exe, "replayall", "--wall", str(wall)], input="\n".join(fs) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
            except subprocess.TimeoutExpired: return [None] * len(fs)
            recs = []
            for l in r.stdout.splitlines():
                try: recs.append(json.loads(l))
                except ValueError: recs.append(None)
            return (recs + [None] * len(fs))[:len(fs)]
        parts = [files[i::NPROC] for i in range(NPROC) if files[i::NPROC]]
        with ThreadPoolExecutor(NPROC) as ex: outs = list(ex.map(go, parts))
        res = [None] * len(files)
        for i, o in enumerate(outs):
            for j, r in enumerate(o): res[i + j * NPROC] = r
        for f in files: os.unlink(f)
        return res
    def close(self):
        try: os.rmdir(self.dir)
        except OSError: pass


def minimise(rp, scen, rec, budget_s):
    """delta debugging over operations, faults and scheduling decisions; the violation class must stay the same"""
    cls, t0 = rec["cls"], time.time()
    if "plan" not in rec or rec.get("by_seed"): return rec
    cur = dict(ops=list(rec["plan"]["ops"]), faults=list(rec["faults"]), sched=list(rec["sched"]))
    def test(cands):
        rs = rp.run([trace_text(scen, rec, c["ops"], c["faults"], c["sched"]) for c in cands])
        return [bool(r) and r.get("cls") == cls for r in rs]
    # big steps first: no scheduling decisions at all, no faults at all
    for k in ("sched", "faults"):
        if cur[k] and time.time() - t0 < budget_s:
            c = dict(cur); c[k] = []
            if test([c])[0]: cur = c
    for k in ("ops", "faults", "sched", "ops"):
        n = 2
        while cur[k] and time.time() - t0 < budget_s:
            L = len(cur[k]); n = min(n, L); size = max(1, L // n)
            cands = []
            for i in range(0, L, size):
                c = dict(cur); c[k] = cur[k][:i] + cur[k][i + size:]; cands.append(c)
            hit = None
            for i in range(0, len(cands), 16):
                ok = test(cands[i:i + 16])
                if any(ok): hit = cands[i + ok.index(True)]; break
                if time.time() - t0 > budget_s: break
            if hit is not None: cur = hit; n = max(2, n - 1)
            elif size == 1: break
            else: n *= 2
    r = rp.run([trace_text(scen, rec, cur["ops"], cur["faults"], cur["sched"])])[0]
    if r and r.get("cls") == cls:
        # the recorded decisions are the ones that really took effect
        r2 = dict(r); return r2
    return rec


def explore(job, exe, base, seconds, maxviol):
    """all workers on one job; returns the parsed records, aggregated"""
    procs = []
    per = job.get("count")
    for w in range(NPROC):
        cmd = [exe, "explore", "--scenario", job["scenario"], "--seed0", str(base + w), "--stride", str(NPROC), "--count", str(per or 10**9),
               "--seconds", "%.2f" % seconds, "--maxviol", str(maxviol)]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    agg = dict(runs=0, steps=0, us=0, switches=0, events=0, stats=collections.Counter(), ih=set(), hashes=set(), states=set(), viols=[], nontrivial=set(), nchk=0)
    def drain(p):
        recs = []
        for l in p.stdout:
            try: recs.append(json.loads(l))
            except ValueError: recs.append(dict(bad=l[:300]))
        return recs
    with ThreadPoolExecutor(NPROC) as ex: outs = list(ex.map(drain, procs))
    for p in procs: p.wait()
    for recs in outs:
        for r in recs:
            if "bad" in r: print("note: unreadable result line", r["bad"][:100]); continue
            if "steps" not in r: agg["viols"].append(dict(r, cls="harness-output", msg=str(r)[:300], seed=r.get("seed", -1))); continue
            agg["runs"] += 1; agg["steps"] += r["steps"]; agg["us"] += r["us"]; agg["switches"] += r["switches"]; agg["events"] += r["events"]
            agg["stats"].update(r["stats"]); agg["ih"].add(r["ih"]); agg["hashes"].add(r["hash"]); agg["states"].update(r["states"])
            if r["cls"] == "" and r["events"] + r["stats"].get("checked", 0) > 0 and r["steps"] > 50: agg["nontrivial"].add(r["hash"])
            if r["cls"] != "": agg["viols"].append(r)
    return agg


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    jobs = [j for j in spec["jobs"] if TIER == "thorough" or not j.get("thorough_only")]
    exes = {}
    for j in jobs:
        key = (j["config"], tuple(j["files"]), bool(j.get("plain")))
        if key not in exes:
            try: exes[key] = B.build(j["config"], list(j["files"]), plain=bool(j.get("plain")))
            except B.BuildError as e:
                print("BUILD-ERROR: the simulator does not build from /repo's working tree"); print(e); return 2
    t_build = time.time() - t0
    budget = float(os.environ.get("VERIF_SECONDS", 0)) or (spec.get("thorough_s", 600) if TIER == "thorough" else spec.get("quick_s", 25))
    known = known_findings(prop)
    exit_code, lines, notes = 0, [], []
    known_hit = set()

    # listed findings are replayed exactly
    for k in known:
        key = next((kk for jj in jobs for kk in [(jj["config"], tuple(jj["files"]), bool(jj.get("plain")))] if jj["config"] == k["config"] and jj["scenario"] == k["scenario"]), None)
        if key is None: continue
        rp = Replayer(exes[key]); r = rp.run([open(os.path.join(HERE, k["replay"])).read()])[0]; rp.close()
        if r and r.get("cls") == k["cls"]: known_hit.add((k["scenario"], k["cls"])); lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else: notes.append("listed finding no longer fails: " + k["what"])

    total_w = sum(j.get("weight", 1) for j in jobs)
    tot = dict(runs=0, steps=0, us=0, switches=0)
    stats, ih, hashes, states, nontrivial, per_job = collections.Counter(), set(), set(), set(), set(), []
    det_checked = 0
    t_explore = 0.0
    for ji, j in enumerate(jobs):
        exe = exes[(j["config"], tuple(j["files"]), bool(j.get("plain")))]
        base = (int(hashlib.sha256(("%s/%s/%s/%d" % (prop, j["scenario"], j["config"], SEED)).encode()).hexdigest()[:10], 16) << 20) % (1 << 60)
        secs = budget * j.get("weight", 1) / total_w
        t1 = time.time()
        agg = explore(j, exe, base, secs, j.get("maxviol", 25))
        t_explore += time.time() - t1
        for k in tot: tot[k] += agg[k]
        stats.update(agg["stats"]); ih |= {j["scenario"] + j["config"] + h for h in agg["ih"]}; hashes |= agg["hashes"]; states |= {(j["scenario"], s) for s in agg["states"]}; nontrivial |= {j["scenario"] + j["config"] + h for h in agg["nontrivial"]}
        per_job.append(dict(scenario=j["scenario"], config=j["config"] + ("_plain" if j.get("plain") else ""), runs=agg["runs"], steps=agg["steps"], violations=len(agg["viols"])))
        # determinism: a few seeds again in a fresh process must give identical records
        if agg["runs"]:
            c = [exe, "explore", "--scenario", j["scenario"], "--seed0", str(base), "--stride", "1", "--count", "4", "--maxviol", "99", "--seconds", "60"]
            a = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
            b = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
            det_checked += 4
            if a != b: notes.append("NONDETERMINISM in %s/%s" % (j["scenario"], j["config"]))
        # violations: confirm, minimise, report
        real = [v for v in agg["viols"] if not (v.get("cls") in {k["cls"] for k in known if k["scenario"] == j["scenario"] and k["config"] == j["config"]})]
        for v in agg["viols"]:
            if v not in real: stats["known_finding_reached"] += 1
        by_cls = collections.OrderedDict()
        for v in sorted(real, key=lambda v: (v.get("steps", 0), v["seed"])): by_cls.setdefault(v["cls"], []).append(v)
        for cls, vs in by_cls.items():
            if cls in ("harness", "harness-output", "stuck", "toolarge"):
                if cls == "stuck" and len(vs) * 200 <= agg["runs"]: notes.append("%d of %d runs of %s/%s were given up without an answer (seed %s)" % (len(vs), agg["runs"], j["scenario"], j["config"], vs[0]["seed"])); continue
                notes.append("HARNESS PROBLEM %s: seed %s: %s" % (cls, vs[0]["seed"], vs[0]["msg"])); exit_code = max(exit_code, 2) if exit_code != 1 else 1; continue
            if any(l.startswith("VIOLATION") for l in lines): notes.append("also: %s/%s seed %d: %s: %s" % (j["scenario"], j["config"], vs[0]["seed"], cls, vs[0]["msg"])); continue
            rp = Replayer(exe); confirmed = None
            for v in vs[:5]:
                rs = rp.run([trace_text(j["scenario"], v)] * 2, wall=40)
                if all(r and r["cls"] == cls for r in rs) and rs[0]["hash"] == rs[1]["hash"]: confirmed = v; break
            if confirmed is None:      # decisions that cannot be applied one by one: the seed itself is the replay
                for v in vs[:3]:
                    rs = rp.run([trace_text(j["scenario"], dict(v, by_seed=True))] * 2, wall=40)
                    if all(r and r["cls"] == cls for r in rs) and rs[0]["hash"] == rs[1]["hash"]: confirmed = dict(v, by_seed=True); break
            if confirmed is None:
                notes.append("UNCONFIRMED %s seed %d (%s) did not reproduce by explicit replay" % (cls, vs[0]["seed"], vs[0]["msg"]))
                if exit_code == 0: exit_code = 2
                rp.close(); continue
            m = minimise(rp, j["scenario"], confirmed, 15 if TIER == "quick" else 60)
            text = trace_text(j["scenario"], m)
            path = os.path.join(REPLAYS, "%s-%s-%s-%d.replay" % (prop, j["config"] + ("_plain" if j.get("plain") else ""), cls, m["seed"]))
            head = "# property %s\n# violation %s: %s\n# found by scenario %s, config %s, seed %d; minimised with %d replays\n# replay: python3 /verif/replay.py %s\n# config %s plain %d files %s\n" % (
                prop, cls, m["msg"], j["scenario"], j["config"], confirmed["seed"], rp.trials, path, j["config"], int(bool(j.get("plain"))), ",".join(j["files"]))
            open(path, "w").write(head + text + "".join("# log %s\n" % l for l in m.get("log", [])[-60:]))
            fin = rp.run([text])[0]; rp.close()
            if not fin or fin["cls"] != cls: notes.append("minimised trace did not replay"); exit_code = exit_code or 2; continue
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            notes.append("violation %s in %s/%s: %s" % (cls, j["scenario"], j["config"], m["msg"]))
            exit_code = 1
        if exit_code == 1: break
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")}
    # one actual case, written out
    samples = []
    for j in jobs[:3]:
        exe = exes[(j["config"], tuple(j["files"]), bool(j.get("plain")))]
        base = (int(hashlib.sha256(("%s/%s/%s/%d" % (prop, j["scenario"], j["config"], SEED)).encode()).hexdigest()[:10], 16) << 20) % (1 << 60)
        r = subprocess.run([exe, "explore", "--scenario", j["scenario"], "--seed0", str(base), "--count", "1", "--detail", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        try:
            r = json.loads(r); samples.append(dict(scenario=j["scenario"], seed=r["seed"], plan=r["plan"], faults=r["faults"][:20], sched=r["sched"][:20], steps=r["steps"], log_tail=r["log"][-8:], verdict=r["cls"] or "ok"))
        except (ValueError, KeyError): pass
    hours = max(t_explore, 1e-3) / 3600
    ev = dict(property=prop, tier=TIER, seed=SEED, level=spec.get("level", "exploration"), wall_s=round(wall, 2), violations=sum(1 for l in lines if l.startswith("VIOLATION")),
              assumptions=spec.get("assumptions", []) + GLOBAL_ASSUMPTIONS,
              coverage=dict(evaluations=tot["runs"], distinct_nontrivial=len(nontrivial),
                            rule=spec["rule"] + " A run is non-trivial when it passed at least one oracle check or logged an observation and took more than 50 simulated steps; distinct means a different hash over its events, faults and scheduling decisions.",
                            samples=samples, runs_per_hour=int(tot["runs"] / hours), seeds_per_hour=int(tot["runs"] / hours), simulated_time_s=round(tot["us"] / 1e6, 3), simulated_steps=tot["steps"],
                            context_switches=tot["switches"], faults_injected=faults, distinct_interleavings=len(ih), distinct_interleavings_measure="hash of the event log and every non-default scheduling decision of a run",
                            distinct_states=len(states), counters=other, jobs=per_job, determinism_pairs_compared=det_checked,
                            real_components=spec["real"], stub_components=spec["stub"], build_s=round(t_build, 1), notes=notes))
    if any("NONDETERMINISM" in n for n in notes) and exit_code == 0: exit_code = 2
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for l in lines: print(l)
    for n in notes: print("note: " + n)
    print("%s: %d runs, %d steps, %d distinct interleavings, %d fault injections, %.1f s (build %.1f s) -> exit %d" % (prop, tot["runs"], tot["steps"], len(ih), sum(faults.values()), wall, t_build, exit_code))
    return exit_code


if __name__ == "__main__":
    sys.exit(main())
