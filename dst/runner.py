"""Seeded search: plan generation, parallel forked runs, minimisation, replay, evidence."""
import copy
import hashlib
import importlib
import json
import os
import random
import select
import sys
import time

from . import boot, proc

EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(boot.VERIF, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(boot.VERIF, "replays"))
KNOWN = os.path.join(boot.VERIF, "known_findings.json")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def load(pid):
    return importlib.import_module("dst.props." + pid.lower())


def known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid and k["status"] == "known"]


def run_seed(seed, pid, i):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (seed, pid, i)).encode()).digest()[:8], "big")


def norm(plan):
    return json.loads(json.dumps(plan))


class Job:
    def __init__(self, mod, plan, tag):
        self.plan, self.tag, self.retried = plan, tag, False
        self.mod = mod
        self.start()

    def start(self):
        mod, plan = self.mod, self.plan
        cpu = getattr(mod, "CPU", proc.CPU_LIMIT)
        self.child = proc.Child(lambda emit: mod.run(plan, emit), cpu=cpu)
        self.deadline = time.monotonic() + getattr(mod, "WALL", 4 * cpu)

    def verdict(self):
        """('ok', stats) | ('violation', info) | ('error', text)"""
        kind, p, d = self.child.outcome()
        if kind == "result":
            return "ok", p
        if kind == "violation":
            return "violation", p
        if kind == "exception":
            if p["origin"] == "sut":
                return "violation", {"what": "unexpected %s: %s" % (p["type"], p["msg"]), "detail": {"where": p["where"]}}
            if proc.unreadable(p):
                return "violation", {"what": "the simulation is in a state no witness can read (%s: %s)" % (p["type"], p["msg"]), "detail": {"where": p["where"]}}
            return "error", p["tb"]
        if kind == "signal" and p in ("SIGSEGV", "SIGABRT", "SIGFPE", "SIGBUS"):
            return "violation", {"what": "the process died with " + p, "detail": {}}
        if kind == "signal" and p == "SIGXCPU":
            return "violation", {"what": "no progress: the simulation did not finish within its CPU budget", "detail": {"hang": True}}
        return "error", "%s %r" % (kind, p)


def execute(mod, plans, nproc=NPROC, cap=None, stop=None):
    """Run plans (an iterable of (tag, plan)); yields (tag, plan, verdict).  Stops launching after cap seconds or when
    stop() is true."""
    t0 = time.monotonic()
    it = iter(plans)
    jobs = []
    more = True
    while more or jobs:
        while more and len(jobs) < nproc:
            if (cap is not None and time.monotonic() - t0 > cap) or (stop is not None and stop()):
                more = False
                break
            try:
                tag, plan = next(it)
            except StopIteration:
                more = False
                break
            jobs.append(Job(mod, plan, tag))
        if not jobs:
            break
        rd = select.select([j.child.fd for j in jobs], [], [], 0.5)[0]
        now = time.monotonic()
        for j in list(jobs):
            done = j.child.fd in rd and j.child.pump()
            if not done and now > j.deadline and not j.child.eof:
                j.child.kill()
                while not j.child.pump():
                    pass
                j.child.status = -1
                done = True
            if done:
                jobs.remove(j)
                v = j.verdict()
                if v[0] == "error" and not j.retried:   # e.g. killed because memory ran low: once more, alone
                    j.retried = True
                    j.start()
                    jobs.append(j)
                    continue
                yield j.tag, j.plan, v


def matches_known(kn, info):
    for k in kn:
        if k.get("finding") and k["finding"] == info.get("detail", {}).get("finding"):
            return k
    return None


def _rank(info):
    return 2 if "no witness can read" in info["what"] else 1 if "unexpected" in info["what"] else 0


def minimise(mod, plan, info, kn, budget=90., nproc=NPROC):
    """Greedy shrinking: keep any simpler plan that still violates the property."""
    if not hasattr(mod, "shrink"):
        return plan, info, 0
    t0 = time.monotonic()
    tried = 0
    seen = {json.dumps(plan, sort_keys=True)}
    progress = True
    if info["detail"].get("hang"):
        budget = 0
    while progress and time.monotonic() - t0 < budget:
        progress = False
        cands = []
        for p in mod.shrink(copy.deepcopy(plan)):
            p = norm(p)
            k = json.dumps(p, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(p)
        found = []
        left = budget - (time.monotonic() - t0)
        for tag, p, v in execute(mod, enumerate(cands), nproc, cap=max(left, 0), stop=lambda: bool(found)):
            tried += 1
            # a simpler plan the code rejects is not a simpler failure
            if v[0] == "violation" and not matches_known(kn, v[1]) and _rank(v[1]) <= _rank(info):
                found.append((tag, p, v[1]))
        if found:
            _, plan, info = min(found, key=lambda f: f[0])
            progress = True
    return plan, info, tried


def check(pid, seed, tier):
    t0 = time.monotonic()
    mod = load(pid)
    T = dict(mod.TIERS[tier])
    if "VERIF_RUNS" in os.environ:
        T["runs"] = int(os.environ["VERIF_RUNS"])
    if "VERIF_CAP" in os.environ:
        T["cap"] = float(os.environ["VERIF_CAP"])
    kn = known(pid)
    if hasattr(mod, "fixed_plans"):
        fixed = [norm(p) for p in mod.fixed_plans(tier)]
    else:
        fixed = []

    def plans():
        for i, p in enumerate(fixed):
            yield ("fixed", i), p
        for i in range(T["runs"]):
            yield ("seed", i), norm(mod.gen(random.Random(run_seed(seed, pid, i)), tier))

    viol, errors, known_hits = [], [], {}
    stats = []
    samples = []
    nrun = 0
    sys.stdout.flush()
    for tag, plan, (kind, info) in execute(mod, plans(), cap=T["cap"], stop=lambda: len(viol) >= 1 or len(errors) > 3):
        nrun += 1
        if kind == "ok":
            stats.append(info)
            if len(samples) < 3:
                samples.append({"run": list(tag), "plan": _short(plan), "outcome": _short(info.get("sample", "held"))})
        elif kind == "violation":
            k = matches_known(kn, info)
            if k:
                known_hits.setdefault(k["finding"], [k, 0])[1] += 1
            else:
                viol.append((tag, plan, info))
        else:
            errors.append((tag, info))
    for k, n in known_hits.values():
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (pid, k["what"], n))
    wall_search = time.monotonic() - t0
    path = None
    if viol:
        tag, plan, info = min(viol, key=lambda v: v[0])
        small, sinfo, tried = minimise(mod, plan, info, kn, budget=float(os.environ.get("VERIF_SHRINK", T.get("shrink", 60.))))
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%d.json" % (pid, seed, tag[1]))
        rec = {"property": pid, "seed": seed, "run": list(tag), "tier": tier, "violation": sinfo, "plan": small,
               "original": {"violation": info, "plan": plan}, "shrink_attempts": tried}
        again = [v for _, _, v in execute(mod, [(0, small), (1, small)])]
        rec["reproduced"] = [v[0] == "violation" and _key(v[1]) == _key(sinfo) for v in again]
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        print("violated: %s" % sinfo["what"])
        print("  detail: %s" % json.dumps(sinfo["detail"], default=str)[:1500])
        print("  seed=%s run=%s shrink_attempts=%d reproduced=%s" % (seed, tag, tried, rec["reproduced"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    evidence(mod, pid, seed, tier, nrun, stats, samples, viol, known_hits, errors, time.monotonic() - t0, wall_search)
    sys.stdout.flush()
    if viol:
        return 1
    if errors:
        print("HARNESS-ERROR property=%s run=%s\n%s" % (pid, errors[0][0], errors[0][1]))
        return 2
    if nrun == 0:
        print("HARNESS-ERROR property=%s: no run completed" % pid)
        return 2
    print("held: property=%s runs=%d wall=%.1fs" % (pid, nrun, time.monotonic() - t0))
    return 0


def _key(info):
    return json.dumps(info, sort_keys=True, default=str)


def _short(x, n=900):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def evidence(mod, pid, seed, tier, nrun, stats, samples, viol, known_hits, errors, wall, wall_search):
    faults, probes = {}, {}
    states, sigs = set(), set()
    sim_t = steps = nontriv = ops = 0
    for s in stats:
        for k, v in s.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in s.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
        states.update(s.get("states", ()))
        sim_t += s.get("sim_time", 0.)
        steps += s.get("steps", 0)
        ops += s.get("ops", 0)
        if s.get("nontrivial"):
            nontriv += 1
            sigs.add(json.dumps(s.get("sig"), default=str))
    h = max(wall_search, 1e-9) / 3600.
    cov = {"evaluations": nrun, "distinct_nontrivial": len(sigs), "nontrivial_runs": nontriv, "rule": mod.RULE,
           "samples": samples or [{"note": "no run held"}],
           "runs_per_hour": round(nrun / h), "seeds_per_hour": round(nrun / h),
           "simulated_seconds_covered": sim_t, "simulated_steps": steps, "intercepted_operations": ops,
           "faults_injected": faults, "probes": probes, "distinct_states": len(states), "state_measure": mod.STATES,
           "components_real": mod.REAL, "components_stub": mod.STUB, "harness_errors": len(errors),
           "known_findings_seen": {k: v[1] for k, v in known_hits.items()}}
    os.makedirs(EVID, exist_ok=True)
    rec = {"property": pid, "tier": tier, "seed": int(seed), "level": mod.LEVEL, "coverage": cov,
           "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(viol)}
    tmp = os.path.join(EVID, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))


def replay(path):
    rec = json.load(open(path))
    mod = load(rec["property"])
    v = [v for _, _, v in execute(mod, [(0, rec["plan"])])][0]
    if v[0] == "violation":
        same = _key(v[1]) == _key(json.loads(json.dumps(rec["violation"], default=str)))
        print("violated: %s" % v[1]["what"])
        print("  detail: %s" % json.dumps(v[1]["detail"], default=str)[:1500])
        print("  identical to the recorded violation: %s" % same)
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    if v[0] == "error":
        print("HARNESS-ERROR property=%s\n%s" % (rec["property"], v[1]))
        return 2
    print("held: property=%s replay=%s" % (rec["property"], path))
    return 0
