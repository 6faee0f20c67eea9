#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
levels, techs = {}, {
 "C01": "runtime monitoring: online trace monitor on all storage writes plus per-answer SCT oracle against an independent RFC 6962 reference, under concurrent stress with injected delays",
 "C02": "runtime monitoring: online trace checker of every published head at its write, under stress, restarts and injected crashes",
 "C03": "runtime monitoring: online invariant checker at each head write, with upload completions serialised in random orders",
 "C04": "runtime monitoring with fault injection: crashes at scheduled storage writes, history monitor across restarts",
 "C05": "runtime monitoring with fault injection: refused writes at scheduled positions, fail-stop and lock monitor",
 "C06": "runtime monitoring: conservation/idempotence checker over recorded submission histories with restarts and crashes",
 "C07": "runtime monitoring: every proof answer verified online by an independent verifier while the log grows",
 "C08": "runtime monitoring: differential oracle on every get-entries answer against the audited log",
 "C09": "runtime monitoring: hostile query generation with a panic/hang/status oracle and storage fault injection",
 "C10": "runtime monitoring: generated chains judged against an independently constructed policy oracle and a storage-trace monitor",
 "C11": "runtime monitoring with fault injection: hostile request bodies and stalled storage, answer/recovery monitor",
 "C12": "runtime monitoring: several real processes against a fake Consul, storage-trace monitor of activity versus lock ownership",
 "C13": "runtime monitoring with fault injection: corruption of each startup object, refusal/no-write monitor",
 "C14": "runtime monitoring: concurrent readers check every observed file content against the set of legal values, with write limits and kills injected",
 "C15": "runtime monitoring: differential oracle against an independent RFC 6979 implementation on generated keys and digests, concurrent use",
 "C16": "runtime monitoring: round-trip and differential oracle against an independent codec on generated and mutated inputs",
 "C17": "runtime monitoring: differential oracle against an independent note/STH verifier on generated and mutated checkpoints",
 "C18": "dynamic race detection (Go race detector) under a concurrent submit/monitor/restart workload",
 "C19": "runtime monitoring: online checker of every index object write, all mask sizes, against a reference record set",
 "C20": "runtime monitoring: differential comparison of the edge handler (Fastly SDK stand-in) with the monitor server on the same queries",
 "C21": "runtime monitoring: real setup runs in subprocesses, oracle on the resulting storage, boot and submissions under every root",
 "C22": "runtime monitoring: reference-built huge logs grown by the real code, every write audited online",
 "C23": "runtime monitoring: progress and freshness monitor over submission bursts and idle phases",
}
notes = {
 "default": "Exploration: the property held on every execution observed (counts in the evidence file). Trusts the harness's independent reference model, its fake S3/Consul servers and the Go toolchain.",
}
src = ""
for f in sorted(os.listdir(root + "/harness/zzverif")):
    if f.endswith(".go"): src += open(root + "/harness/zzverif/" + f).read()
for m in re.finditer(r'checks\["(C\d\d)"\] = Check\{\s*Level:\s*"(\w+)"', src): levels[m[1]] = m[2]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in levels:
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
            "technique": techs[i], "level": levels[i], "level_note": notes.get(i, notes["default"])})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the harness is an overlay package (cmd/zzverif) that uses exported APIs, HTTP, storage and Consul traffic only."},
  open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
