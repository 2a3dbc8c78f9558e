#!/usr/bin/python3
"""Writes MANIFEST.json from properties.jsonl and the plans."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, V)
import plans  # noqa: E402
from check import Job  # noqa: E402

TECH = {
    "C01": "property-based testing: generated honest exchanges across builds, round-trip oracle",
    "C02": "property-based testing: key generation against an executable specification model",
    "C03": "property-based testing: encapsulation against an executable specification model",
    "C04": "property-based testing: decapsulation of crafted and damaged inputs against a specification model",
    "C05": "property-based testing: enumerated and generated ciphertext alterations, implicit-rejection oracle",
    "C06": "property-based testing: differential between builds",
    "C07": "property-based testing (Hypothesis): Python reference against the C library and a numpy model",
    "C08": "property-based testing: generated secrets under valgrind tainting and trace comparison of instrumented builds",
    "C09": "property-based testing: generated calls on a private stack, searched for secrets of the model",
    "C10": "property-based testing: guard pages, canaries, poisoned outputs, ASan/UBSan on generated inputs",
    "C11": "fault injection: enumerated and random read/open schedules on a simulated device",
    "C12": "fault injection: random-source failures at every request in generated histories",
    "C13": "property-based testing: generated concurrent workloads against sequential results, ThreadSanitizer",
    "C14": "stateful property-based testing: generated call histories against a fresh process",
    "C15": "property-based testing: SHAKE against OpenSSL over generated lengths",
    "C16": "property-based testing: 4-way SHAKE against OpenSSL per lane",
    "C17": "property-based testing: AES against OpenSSL",
    "C18": "property-based testing: pack/unpack against a bit-by-bit model and round trip",
    "C19": "property-based testing: noise at the decoding bound, through solved-for keys and directly",
    "C20": "property-based testing: sampler against the published distribution, all 16-bit values",
    "C21": "property-based testing: matrix products against schoolbook arithmetic",
    "C22": "property-based testing: big-endian builds in an emulator against the specification model",
    "C24": "stateful property-based testing: repeated generated histories, resources in use must not grow",
    "C25": "property-based fault injection: the k-th allocation or provider call fails, outcome judged against the model",
    "C26": "property-based testing: generated request histories and listings against an independent DRBG",
    "C23": "property-based testing (Hypothesis): malformed names and lengths must be rejected",
}
checks = []
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)["id"]
    plan = plans.PLANS[p]("quick", Job)
    checks.append({
        "property": p, "quick_cmd": f"/usr/bin/python3 check.py {p}",
        "thorough_cmd": f"/usr/bin/python3 check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": plan.get("level", "exploration"),
        "level_note": (plan.get("exhaustive", "") + ". " if plan.get("exhaustive") else "") +
        "Generated-input search, not a proof. " + plan["rule"]})
json.dump({"version": 1, "setup_cmd": "/usr/bin/python3 check.py --setup", "checks": checks, "not_applicable": []},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
