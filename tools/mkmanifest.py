#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "ck_chain": "online monitor: real chain component against an independent ledger model over generated event histories",
    "ck_core": "differential runtime monitor against exact arithmetic and independent hashing",
    "ck_disk": "restart and crash-point monitor over recorded file operations",
    "ck_miner": "online monitor of real miners' published solutions",
    "ck_prot": "runtime monitor of both ends of real connections under fragmentation and faults",
    "ck_net": "runtime monitor of real nodes over loopback TCP with scripted and hostile peers",
    "ck_bus": "recorded histories checked against sequential specifications (porcupine, per-publisher order)",
    "ck_race": "Go race detector over the running components",
    "ck_http": "runtime monitor of the real HTTP server against the ledger model",
    "ck_wallet": "runtime monitor of the real wallet binary against the real node binary",
}
checks = []
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        checks.append({
            "property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": s.get("technique", TECH[s["main"]]), "level": s.get("level", "exploration"),
            "level_note": "Held on every execution driven, not proved. Assumes: " + ("; ".join(s.get("assumptions", [])) or "the Go toolchain") + "."})
doc = {"version": 1, "setup_cmd": "true", "checks": checks,
       "not_applicable": [{"property": i, "reason": "monitor still being built"} for i in ids if i not in PROPS],
       "notes": "No hooks in /repo: everything is observed through exported interfaces, the bus, TCP, HTTP, files and the real binaries. Checks build from /repo's working tree through a go build overlay."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
