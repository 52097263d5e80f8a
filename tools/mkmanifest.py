#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a file in props/."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDS = {
    "invariant": "property-based testing: generated meshes and arguments, "
                 "invariants of the outputs as oracle",
    "model": "property-based testing: generated inputs, independent reference "
             "model as oracle",
    "stateful": "stateful property-based testing against an abstract model",
    "metamorphic": "property-based testing: metamorphic relations between "
                   "paired calls",
    "differential": "property-based differential testing between interfaces",
    "threads": "property-based differential testing of concurrent against "
               "sequential calls under the thread sanitizer",
    "fuzz": "property-based testing and coverage-guided fuzzing under "
            "sanitizers",
}
KIND = {}
for k, ids in {
    "invariant": "C01 C02 C03 C04 C07 C08 C12 C15 C19 C30",
    "model": "C06 C10 C11 C13 C14 C16 C17 C18 C27 C32 C36 C37 C38 C40",
    "stateful": "C09 C26 C28 C29 C31",
    "metamorphic": "C05 C20 C21 C22 C33 C35",
    "differential": "C23 C24 C39",
    "threads": "C34",
    "fuzz": "C25",
}.items():
    for i in ids.split():
        KIND[i] = KINDS[k]
NOTE = ("Searches generated inputs under ASan/UBSan and library assertions "
        "with a fixed seed; the thorough tier adds more and larger cases and "
        "coverage-guided fuzzing. Bounds and assumptions are in DESIGN.md and "
        "in the evidence file. Nothing is proved beyond the inputs explored.")
END = (" Bounds and assumptions are in DESIGN.md and in the evidence file. "
       "Nothing is proved beyond the inputs explored.")
NOTES = {
    "C34": "Searches generated sets of concurrent calls under the thread "
           "sanitizer with a fixed seed; the thorough tier adds more and larger "
           "cases." + END,
    "C36": "Searches generated inputs with hypothesis and a fixed seed; the "
           "thorough tier adds more cases." + END,
}
checks = []
with open(os.path.join(V, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f if line.strip()]
for i in ids:
    if any(os.path.exists(os.path.join(V, "props", i.lower() + e))
           for e in (".cpp", ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": KIND[i], "level": "exploration", "level_note": NOTES.get(i, NOTE)})
m = {"version": 1,
     "setup_cmd": "python3 check.py --self-test",
     "hooks": {"guard": "none: the checks need no hook in /repo",
               "enable": "nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Each check builds its own binary in build/<id>-<pid> from "
              "/repo's working tree and removes it afterwards. Replays: "
              "./replay.sh replays/<file>. VERIF_KEEP=1 keeps the build."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
