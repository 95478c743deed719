"""Writes /verif/MANIFEST.json from the property list and the modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "C01": "runtime monitoring: embedding/shape monitor over generated paddings",
    "C02": "runtime monitoring: elementwise closed-form extension oracle",
    "C03": "runtime monitoring: elementwise closed-form extension oracle",
    "C04": "runtime monitoring: elementwise statistic/constant oracle",
    "C05": "runtime monitoring: sequential-padding and respelling oracles, custom-function call monitor",
    "C06": "uninitialised-memory sanitizer: poisoned allocations at torch's dispatcher",
    "C07": "runtime monitoring: output-size law, minimality search and explicit-padding oracle",
    "C08": "runtime monitoring: dense outer-product correlation oracle",
    "C09": "runtime monitoring: window-mean oracle",
    "C10": "runtime monitoring: Hermite-polynomial Gaussian oracle",
    "C11": "runtime monitoring: brute-force convolution and counting oracle",
    "C12": "runtime monitoring: dense correlation oracle for gradient components",
    "C13": "runtime monitoring: formula oracle and constant-image monitor",
    "C14": "runtime monitoring: formula oracle",
    "C15": "runtime monitoring: formula oracle",
    "C16": "runtime monitoring: direct windowed-definition oracle, symmetry/bound monitors",
    "C17": "runtime monitoring: direct multi-scale definition oracle",
    "C18": "runtime monitoring: per-site pattern oracle",
    "C19": "runtime monitoring: per-site correlation oracle",
    "C20": "runtime monitoring: Malvar filter oracle and flip/transpose equivariance monitor",
    "C21": "runtime monitoring: sequence-model oracle",
    "C22": "runtime monitoring: item-wise model oracle",
    "C23": "runtime monitoring: tree-model oracle",
    "C24": "runtime monitoring: formula oracle on values and gradients",
    "C25": "runtime monitoring: formula oracles",
    "C26": "runtime monitoring: window trace checker and offset-frequency test",
    "C27": "runtime monitoring: statistical trace checker and seed replay",
    "C28": "runtime monitoring: backward pass against linear-map transpose and finite differences",
    "C29": "runtime monitoring: history replay against fresh objects",
    "C30": "runtime monitoring: metamorphic batching/permutation/layout/notation oracle",
    "C31": "runtime monitoring: rejection monitor over invalid arguments",
    "C32": "device sanitizer (fake-tensor device propagation) and precision monitor",
    "C33": "runtime monitoring: round-trip and cross-library padding oracle",
    "C34": "runtime monitoring: geometric oracle",
    "C36": "runtime monitoring: independent numpy loss oracle on values and gradients",
    "C37": "race monitor: deterministic thread scheduler over library lines plus free-running threads, compared with sequential runs",
    "C38": "runtime monitoring: differential monitor over copies and execution modes",
    "C35": "argument write sanitizer: byte and version-counter comparison around every call",
}
NOTE = ("Held on every execution of a seeded, deterministic workload of the real code (counts and samples in the evidence file). "
        "Trusts the numpy reference model, torch's own kernels and the CPU float64 arithmetic; says nothing about inputs outside the generated families.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "tim", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Pure Python library: checks import /repo's working tree directly, nothing is compiled. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
