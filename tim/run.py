"""python -m tim.run <PROPERTY> [--tier T] [--seed N] [--replay FILE] [--jobs J] [--limit N]"""
import argparse
import concurrent.futures as cf
import concurrent.futures.process
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

import torch

from . import core

EVID = os.environ.get("TIM_EVIDENCE") or os.path.join(core.VERIF, "evidence")
KF_FILE = os.path.join(core.VERIF, "known_findings.jsonl")


def load_known(prop):
    out = []
    if os.path.exists(KF_FILE):
        for line in open(KF_FILE):
            line = line.strip()
            if not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("status") == "open" and d.get("property") == prop:
                out.append(d)
    return out


def match_known(known, wl, mech):
    for k in known:
        if k.get("workload") in (None, wl) and mech == k["mechanism"]:
            return k
    return None


def _limit_memory():
    """A runaway allocation in one case must surface as an exception there."""
    import resource
    with open("/proc/self/statm") as f:
        cur = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (cur + (4 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))


def worker(args):
    prop, shard, jobs, seed, tier, limit = args
    torch.set_num_threads(1)
    mod = importlib.import_module(f"tim.props.{prop.lower()}")
    known = load_known(prop)
    res = {"evals": 0, "sigs": set(), "events": {}, "viol": [], "known": {}, "samples": [], "inconclusive": [], "per_wl": {}}
    t_start, slow = time.time(), 0
    for wl in mod.WORKLOADS:
        n = wl.thorough if tier == "thorough" else wl.quick
        if tier != "thorough" and not callable(n) and n >= 200:
            n = int(n * getattr(mod, "QUICK_SCALE", 3))
        if callable(n):
            n = n()
        if limit:
            n = min(n, limit)
        for i in range(shard, n, jobs):
            try:
                c = core.execute(prop, wl, i, seed, tier)
            except core.CaseTimeout:
                # confirm with a logical-step budget, not with wall-clock time
                try:
                    c = core.execute(prop, wl, i, seed, tier, step_limited=True, alarm=150)
                    if not any(m == "nontermination" for m, _ in c.violations):
                        # it finished and was judged; a loaded machine is no reason to doubt that
                        c.events["slow_case"] = c.events.get("slow_case", 0) + 1
                        slow += 1
                        if slow > 20:
                            res["inconclusive"].append(f"{wl.name}[{i}] slow")
                except core.CaseTimeout:
                    res["inconclusive"].append(f"{wl.name}[{i}] watchdog")
                    continue
            res["evals"] += 1
            pw = res["per_wl"].setdefault(wl.name, [0, 0])
            pw[0] += 1
            for k, v in c.events.items():
                res["events"][k] = res["events"].get(k, 0) + v
            desc = core.jsonable(c.desc)
            if c.nontrivial and c.events:
                pw[1] += 1
                res["sigs"].add(hashlib.md5((wl.name + json.dumps(desc, sort_keys=True)).encode()).digest()[:8])
                if len(res["samples"]) < 2 and i % 7 == 3:
                    res["samples"].append({"workload": wl.name, "index": i, "case": desc, "events": dict(c.events)})
            for mech, detail in c.violations:
                k = match_known(known, wl.name, mech)
                if k is not None:
                    res["known"][k["id"]] = res["known"].get(k["id"], 0) + 1
                    continue
                res["viol"].append({"property": prop, "workload": wl.name, "index": i, "seed": seed, "tier": tier,
                                    "mechanism": mech, "case": desc, "detail": detail})
            if len(res["viol"]) >= core.MAX_VIOL:
                res["stopped"] = True
                return res
            if len(res["inconclusive"]) >= 3:
                return res
    res["wall"] = time.time() - t_start
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("TIM_JOBS", "6")))
    ap.add_argument("--limit", type=int, default=0)
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    torch.set_num_threads(1)
    t0 = time.time()

    import torchimage
    src = os.path.realpath(os.path.dirname(torchimage.__file__))
    if src != os.path.realpath(os.path.join(core.REPO, "torchimage")):
        print(f"ERROR property={prop}: library loaded from {src}", flush=True)
        return 2
    mod = importlib.import_module(f"tim.props.{prop.lower()}")

    if a.replay:
        d = json.load(open(a.replay))
        wl = next(w for w in mod.WORKLOADS if w.name == d["workload"])
        c = core.execute(prop, wl, d["index"], d["seed"], d["tier"])
        print(json.dumps({"case": core.jsonable(c.desc), "events": c.events, "violations": c.violations}, indent=1))
        if c.violations:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0

    jobs = max(1, a.jobs)
    args = [(prop, s, jobs, seed, tier, a.limit) for s in range(jobs)]
    if jobs == 1:
        results = [worker(args[0])]
    else:
        with cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"), initializer=_limit_memory) as pool:
            try:
                results = list(pool.map(worker, args))
            except cf.process.BrokenProcessPool:
                print(f"INCONCLUSIVE property={prop} a worker process died")
                return 2

    events, sigs, viol, known, samples, inc, per_wl, evals = {}, set(), [], {}, [], [], {}, 0
    for r in results:
        evals += r["evals"]
        sigs |= r["sigs"]
        viol += r["viol"]
        inc += r["inconclusive"]
        samples += r["samples"]
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for k, v in r["per_wl"].items():
            p = per_wl.setdefault(k, [0, 0])
            p[0] += v[0]
            p[1] += v[1]
    viol.sort(key=lambda v: (v["workload"], v["index"]))

    os.makedirs(EVID, exist_ok=True)
    # a monitor that had to be reached but was not makes the run inconclusive
    missing = [k for k in getattr(mod, "REQUIRED_EVENTS", []) if not events.get(k)]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(sigs),
            "rule": getattr(mod, "RULE", ""),
            "samples": samples[:6],
            "monitored_events": dict(sorted(events.items())),
            "cases_per_workload": {k: {"run": v[0], "nontrivial": v[1]} for k, v in sorted(per_wl.items())},
            "known_findings_seen": known,
            "unreached_monitors": missing,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", ["CPU build of torch in /opt/venv; single-threaded execution"]),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for k in load_known(prop):
        if known.get(k["id"]):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in viol:
            if v["mechanism"] in seen or len(seen) >= 4:
                continue
            seen.add(v["mechanism"])
            path = os.path.join(rdir, f"{prop}-{v['workload']}-{v['index']}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(json.dumps({"workload": v["workload"], "index": v["index"], "mechanism": v["mechanism"], "case": v["case"], "detail": v["detail"]})[:1500])
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if inc or missing:
        print(f"INCONCLUSIVE property={prop} unreached={missing} watchdog={inc[:5]}")
        return 2
    print(f"HELD property={prop} on {evals} executions, {len(sigs)} distinct non-trivial cases; events={json.dumps(events, sort_keys=True)} ({evidence['wall_s']} s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
