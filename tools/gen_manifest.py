#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
ORACLE = {
 "C01": "closed-form WGS-84 oracle in long double and round trips",
 "C02": "independent rotation-matrix oracle, isometry and round trips",
 "C03": "eigen-free support-function oracle for ellipses",
 "C04": "exact polygon-clipping oracle and metamorphic relations",
 "C05": "corner-wise differential oracle and round trips",
 "C06": "exhaustive-DP / Hungarian oracle and dual certificates",
 "C07": "exhaustive enumeration oracle",
 "C08": "stateful model-based testing against a list of boxes",
 "C09": "stateful invariant over tracker histories",
 "C10": "union-find model and metamorphic reordering",
 "C11": "reference clustering (union-find over overlap) per scan",
 "C12": "closed-form motion oracle, composition law, stateful",
 "C13": "independent Bayes oracle (information form)",
 "C14": "reference mixture reduction",
 "C15": "statistical tests at 6 sigma against closed forms",
 "C16": "reference particle arithmetic and statistical tests",
 "C17": "brute-force joint hypothesis enumeration",
 "C18": "reference birth rule from brute-force hypotheses",
 "C19": "stateful invariants over histories under sanitizers",
 "C20": "metamorphic: permutations and thread schedules",
 "C21": "metamorphic: shifts and mirror images",
 "C22": "reference missed-detection rule and frame conditions",
 "C23": "exhaustive assignment oracle for OSPA/GOSPA",
 "C24": "twin-run differential: with and without queries",
 "C25": "reference selection over live targets",
 "C26": "Monte-Carlo / quadrature oracle for grid mass",
 "C27": "independent JSON parser round trip",
 "C28": "generated-scenario differential Python vs C++",
 "C29": "randomised schedules under ThreadSanitizer",
 "C30": "generated-scene geometric oracle over drawn artists",
 "C31": "simulated scenarios with statistical bounds",
 "C32": "differential: joint tracker vs separate trackers",
 "C33": "reference hypothesis ranking and limit invariants",
}
LEVEL = ("Searches generated cases only: a pass means no counterexample among the cases counted in the evidence file, "
         "not a proof. Trusts the oracle in checks/%s, the compiler and Eigen.")
checks, na = [], []
for p in props:
    i = p["id"]
    src = [s for s in ("checks/%s.cpp" % i, "checks/%s.py" % i) if os.path.exists(V + "/" + s)]
    if src:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "property-based testing and fuzzing: " + ORACLE[i],
                       "level": "exploration", "level_note": LEVEL % os.path.basename(src[0])})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import json; json.load(open(\"known_findings.json\"))'",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. run.py builds each check from /repo's working tree into /verif/build (git-ignored)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
