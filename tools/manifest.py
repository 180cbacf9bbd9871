#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os
GEN = ("Exhaustive within the bounds of DESIGN.md: every schema of the family is run through the real macro, compiled with rustc, and every "
       "document of its bounded space is executed and compared with the reference model. Trusts rustc, the reference model in engine/, and that "
       "behaviours beyond the bounds follow the same code paths.")
DIR = ("Exhaustive within the bounds of DESIGN.md: every history or input of the bounded space is executed on the real code and compared, step by "
       "step, with a small model. Trusts the model and the bounds.")
T_GEN = "bounded exhaustive model checking: schemas x documents on the compiled generated code against an executable reference model"
C = {
    "C01": (T_GEN + " (round trip)", GEN), "C02": (T_GEN + " (decoding)", GEN), "C03": (T_GEN + " (encoding)", GEN),
    "C04": (T_GEN + " (mutated and malformed documents)", GEN),
    "C05": ("explicit-state exploration of all operation sequences on the real child cursor against a list model", DIR),
    "C06": ("explicit-state exploration of all operation sequences on the real writer context against a tag model", DIR),
    "C07": (T_GEN + " (namespace configurations and prefix styles)", GEN),
    "C08": (T_GEN + " and exhaustive exploration of include/import graphs with faults", GEN),
    "C09": (T_GEN + " (enumeration lists)", GEN), "C10": (T_GEN + " (names in every position)", GEN),
    "C11": (T_GEN + " (types x positions x lexical forms)", GEN), "C12": (T_GEN + " (all permutations of all groups)", GEN),
    "C13": (T_GEN + " (all content-model trees, all child words)", GEN), "C14": (T_GEN + " (all choices, all child words)", GEN),
    "C15": (T_GEN + " (extension chains)", GEN), "C16": (T_GEN + " (attribute declarations x presence)", GEN),
    "C17": (T_GEN + " (markup placements and special strings)", GEN), "C18": (T_GEN + " (name-collision patterns)", GEN),
    "C19": ("exhaustive enumeration of all single deviations from base schemas, executed on the real generator against a model of what is implemented where", DIR),
    "C20": (T_GEN + " plus exploration of all declaration orders and hash iteration orders of the real generator", GEN),
    "C21": ("explicit-state exploration of all dependency graphs and request sequences on the real generator against a closure model", DIR),
    "C22": (T_GEN + " (ways of referring to a definition)", GEN),
    "C23": ("exhaustive enumeration of documentation placements and host-module configurations on the real generator and macro", DIR),
    "C24": ("exhaustive enumeration of enumerations and named simple types, compiled with the real macro, with every text of a universe against a set model", DIR),
}
m = {
    "version": 1,
    "setup_cmd": "python3 mc.py setup",
    "checks": [{"property": p, "quick_cmd": f"python3 mc.py {p} quick", "thorough_cmd": f"python3 mc.py {p} thorough", "technique": t,
                "level": "model_checking", "level_note": n} for p, (t, n) in C.items()],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is reached through public interfaces. /repo's own commits are repairs of genuine defects (known-findings.json).",
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
