#!/usr/bin/env python3
"""Rewrites MANIFEST.json from runs.py"""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import runs
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "cargo build --release --offline -q --manifest-path engine/Cargo.toml && engine/target/release/usym selftest 200",
    "hooks": {"guard": "uflow_verif", "enable": "RUSTFLAGS=--cfg uflow_verif (set by ./check; harness crates depend on /repo by path)", "source_commits": ["a9a8d21", "08c726d"]},
    "checks": [{
        "property": i,
        "quick_cmd": "./check %s --tier quick" % i,
        "thorough_cmd": "./check %s --tier thorough" % i,
        "technique": "symbolic execution of the compiled code (LLVM IR of /repo's current source) with Z3 deciding every branch and assertion over all inputs within bounds",
        "level": "model_checking",
        "level_note": runs.PROPS[i]["what"] + " Bounds per run are in the evidence file; outside them: " + runs.PROPS[i]["outside"] + ".",
    } for i in ids if i in runs.PROPS],
    "not_applicable": [{"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in runs.PROPS],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
