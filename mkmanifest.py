#!/usr/bin/env python3
"""Regenerate MANIFEST.json from config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config
checks = []
for p, c in config.PROPERTIES.items():
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification of the real code (Kani/CBMC harnesses per function, callee contracts as stubs, rely/guarantee ghost state)"
        if c["harnesses"] else "contracts (trait bounds of the Send/Sync impls) discharged by rustc's trait solver over the real crate",
        "level": c["level"],
        "level_note": c["note"] + " Assumes the trusted base listed in the evidence (Kani/CBMC, ghost shim, hand-argued rely/guarantee composition); "
                      "the native driver only searches for concrete failing inputs and is bounded.",
    })
m = {
    "version": 1,
    "setup_cmd": "cargo kani --version && python3 --version",
    "hooks": {"guard": "--cfg thingbuf_verif",
              "enable": "RUSTFLAGS='--cfg thingbuf_verif' THINGBUF_VERIF_HOOKS=/verif/kani/hooks",
              "source_commits": ["0f20f97"]},
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check rebuilds from /repo's working tree; build output goes to /verif/build and is removed afterwards. DESIGN.md explains the method and the limits.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
