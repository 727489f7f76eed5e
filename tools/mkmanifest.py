#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = "TLA+ specification checked with TLC; trace validation of the real code's answers against it"
R = "TLA+ specification checked with TLC; its exported behaviours replayed in the real code and every recorded trace validated"
REPLAY = {"C06", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21"}
TRUST = (" Trusted: TLC, the BigNum override (checked against its pure TLA+ definition by a model), the harness' recording of calls. "
         "Numbers are exact or carry 2^-100 relative error, so the tolerance is that of the code's own rounding.")
NOTE = {
 "C01": "Every recorded CDF call is judged exactly for range and support, and against all earlier calls on the same parameters for order and steps. Bounded by the generated parameters and arguments.",
 "C02": "Every recorded CDF call is compared with the exact value computed in the specification (series, continued fractions, at over 100 bits). Bounded by the generated parameters and arguments.",
 "C03": "Every recorded density call is compared with the exact density, which a bounded model shows to be the derivative of the specified distribution function. Bounded by the generated inputs.",
 "C04": "Every recorded mass is compared with the exact mass; complete mass tables are summed and compared with recorded CDF calls. Bounded by the generated inputs.",
 "C05": "Every recorded quantile is placed back into the exact distribution function of the specification, on the tail nearer to p. Bounded by the generated inputs.",
 "C06": "Every recorded quantile is decided by the definition of least admissible outcome on exact partial sums; all small weight vectors with all ties come from a bounded model. Otherwise bounded by the generated inputs.",
 "C07": "Every recorded quantile is decided by exact cumulative probabilities on the nearer tail; hangs and panics are violations. Bounded by the generated inputs.",
 "C08": "Every recorded moment is compared with the exact moment, which bounded models tie to the specified law by exact summation or quadrature.",
 "C09": "Every recorded moment is compared with the exact moment, which bounded models tie to the specified law by exact summation or quadrature.",
 "C10": "Every recorded entropy is compared with the exact entropy, computed by exact summation or closed forms that a bounded model ties to the law by quadrature.",
 "C11": "Every recorded median is placed back into the exact distribution function. Bounded by the generated inputs and the vectors a bounded model exports.",
 "C12": "Every recorded mode list is compared with the set of maximizers by case analysis, which bounded models check against exhaustive maximization.",
 "C13": "Every draw is judged by the words it read: one read, and the exact quantile of that uniform, one orientation per family and run.",
 "C14": "Every draw is judged by running the specified ziggurat on the exact words it read; the tables are shown to have equal areas by a bounded model, which exports one word sequence per path and layer.",
 "C15": "Every draw is judged by running the specified samplers on the exact words it read; a bounded model exports word sequences for each path.",
 "C16": "Every draw is tested for membership in the closed support, under extreme and random words and parameters.",
 "C17": "Every stream request is compared with the direct draws from the same words; all short schedules come from a bounded model of streams sharing a source.",
 "C18": "Every answer and draw is compared bit for bit with all earlier ones on equal parameters and words, over copies, histories and threads (threads: real schedules, not enumerated).",
 "C19": "Every constructor call is judged by the domain of its arguments; grids of boundary values come from a bounded model.",
 "C20": "All recorded answers of pairs of related objects are compared through the relation the specification defines.",
 "C22": "Every recorded answer of the optimised build is compared with the debug build's answer to the same call, and judged by the exact value where the bits differ. Bounded by the generated inputs.",
 "C21": "Every fit is compared with exact sums; all short small-integer sequences come from a bounded model.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="python3 run/check.py %s quick" % i, thorough_cmd="python3 run/check.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=R if i in REPLAY else T, level="model_checking", level_note=NOTE[i] + TRUST))
m = dict(version=1, setup_cmd="python3 run/check.py --setup", hooks=dict(guard="none", enable="no hooks are needed: everything observed is public", source_commits=[]),
         checks=checks, not_applicable=[],
         notes="Genuine defects were repaired by the fix: commits in /repo or are listed in known-findings.txt; see DESIGN.md.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
