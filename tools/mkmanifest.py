#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin")); sys.dont_write_bytecode = True
import props
NA = getattr(props, "NOT_APPLICABLE", {})
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); i = d["id"]
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "bin/check %s quick" % i,
            "thorough_cmd": "bin/check %s thorough" % i,
            "technique": "symbolic execution of the compiled code (LLVM IR), assertions decided by SMT (z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": ("Bounds: " + "; ".join(P["bounds"]) + ". Outside: " + "; ".join(P.get("outside", ["nothing further"])) + ". f64 values that are symbolic are reals.")[:1900],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cargo feature verif_hooks of the crate nexsys (off by default)", "enable": "harness/nexs/Cargo.toml depends on nexsys with features = [\"verif_hooks\"]", "source_commits": ["c795221c14ce1efd4e1cef8542d9e341c8533d94"]},
     "notes": "The only hook in /repo lets a harness supply the base unit tables of nexsys; apart from it the harness crates use the public API (and the public C functions). known-findings.txt lists repaired and recorded defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
