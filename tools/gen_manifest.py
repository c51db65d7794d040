#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness files present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NOTE = ("Bounded: holds for every input within the bounds each harness states (evidence file, DESIGN.md); nothing is claimed beyond them. "
        "Executes the optimised LLVM IR of /repo's current tree, its dependencies and std. Trusts rustc's lowering, our IR executor and Z3; "
        "sampled path models are replayed on the native build in every run, and counterexamples are reported only when the native build fails on them too.")
checks = [dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s thorough" % i,
               evidence_file="evidence/%s.json" % i, technique="symbolic execution of the LLVM IR of the real code, path conditions and assertions decided by Z3 within stated bounds",
               level="model_checking", level_note=NOTE) for i in ids if os.path.exists(R + "/harness/src/%s.rs" % i.lower())]
na = [dict(property=i, reason="harness not built yet") for i in ids if not os.path.exists(R + "/harness/src/%s.rs" % i.lower())]
json.dump(dict(version=1, setup_cmd="cd engine && CARGO_TARGET_DIR=/verif/.build/engine RUSTUP_TOOLCHAIN=stable cargo build --release --offline -q", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the harnesses use the public API only (the CLI's main.rs and the derive crate are compiled in from /repo)."), open(R + "/MANIFEST.json", "w"), indent=1)
