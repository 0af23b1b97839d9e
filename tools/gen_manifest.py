#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = ("Every path within the stated bounds, over all values of the symbolic inputs; the text of symbolic numbers is "
        "abstract (contracts tested natively); counterexamples are replayed on a native build before they are reported.")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [
    {"property": "C20", "reason": "Quantifies over source programs expanded by rustc's macro_rules engine: there is no "
     "code of the repository to execute symbolically and no input to make symbolic. What the expansions call, and a set "
     "of compiled literals, is decided under C18."}]}
for i in range(1, 20):
    p = "C%02d" % i
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the crate's LLVM IR with Z3; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": NOTE,
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
