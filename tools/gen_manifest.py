#!/usr/bin/env python3
"""Writes MANIFEST.json: a check is claimed when its program exists."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": ("property-based testing against a reference model of workload operators", "Random operator trees; Workload::force is compared as a multiset with an independent evaluator. Trusts the evaluator in harness/src/sx.rs."),
 "C02": ("property-based testing against a reference filter evaluator", "Random filters, patterns and terms; keep/drop is compared with an independent definition of every filter."),
 "C03": ("property-based testing against a brute-force grammar enumerator", "Random grammars and bounds; the enumerated multiset is compared with an independent enumeration."),
 "C04": ("property-based testing against reference evaluation at every sample assignment", "Random finite algebras and workloads; classes and value vectors are compared with pointwise reference evaluation."),
 "C05": ("property-based round-trip testing", "Random terms, patterns, workloads and rulesets are printed or written and read back, and compared structurally with an independent parser's view."),
 "C06": ("stateful model-based property testing", "Random operation histories against a model set keyed by rule text."),
 "C07": ("property-based testing against a trusted one-step rewriting oracle", "Random rules and e-graphs; the partition after applying a rule is compared with that of plain egg rewriting under the definedness guard."),
 "C08": ("differential property-based testing against a trusted congruence-closure engine", "Random e-graphs, rulesets, strategies and limits; every merge must be implied by plain equality saturation run further, and by the hidden algebra's semantics."),
 "C09": ("differential property-based testing (Compress against Simple)", "Random e-graphs, rulesets and limits; partitions of the original classes are compared."),
 "C10": ("differential property-based testing against a reference runner", "Random rulesets and limits; classes after n iterations are compared with a reference runner."),
 "C11": ("property-based testing against a brute-force pair matcher", "Random value vectors and e-graphs; candidate sets are compared with all pairs judged by definition."),
 "C12": ("property-based testing against a brute-force pair enumerator", "Random e-graph pairs; candidates are compared with all pairs of newly merged extractable classes."),
 "C13": ("property-based testing of invariants with a table-driven validator", "Random candidate sets with valid, invalid and undecided rules; results are checked against the validator's table."),
 "C14": ("property-based testing against a reference derivation engine and greedy simulation", "Dropped candidates are re-derived by a trusted engine, the selection order is checked against scores."),
 "C15": ("differential property-based testing against a trusted derivation engine", "Random rulesets, rules and limits; verdicts are compared with an independent saturation."),
 "C16": ("property-based testing of soundness and completeness over random finite algebras", "Rules are checked by exhaustive evaluation; completeness by comparing all pairs of equal workload terms."),
 "C17": ("property-based testing against a trusted derivation engine", "Rules returned must be allowed, implied by the given rules and not prior; nothing derivable is lost."),
 "C18": ("property-based testing against bit-by-bit reference arithmetic", "All widths 1..128 with random and boundary operands."),
 "C19": ("property-based testing against a reference interpreter and exhaustive validity", "Generated bitvector domains of many widths; evaluation and validator verdicts are compared with a bit-level reference."),
 "C20": ("stateful property-based testing of analysis invariants", "Random insertion and merge histories; invariants are recomputed for every class."),
 "C21": ("property-based metamorphic testing", "Random term pairs; generalization, instantiation and scores are compared with their definitions."),
 "C22": ("stateful model-based property testing", "Random report histories against a model of the results file."),
 "C23": ("metamorphic property-based testing over repeats, thread counts and processes", "The same random inference is repeated under different schedules and compared in order."),
 "C24": ("property-based testing of the report scripts in node against a reference", "Random rule lists and records; the functions' results are compared with an independent reference."),
 "C25": ("property-based testing of the scraper over generated C++ sources", "Random sources with known rewrite calls; the files written and counts printed are compared with what was put in."),
 "C26": ("stateful property-based testing with fault injection in a scratch checkout", "Random leftovers, test outcomes and results; stand-ins record the commands, the published directory is compared with what the run made."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    built = os.path.exists(os.path.join(root, "harness/src/bin", i.lower() + ".rs")) or any(os.path.exists(os.path.join(root, "checks", i.lower() + e)) for e in (".js", ".py"))
    if built:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./checks/run.sh {i}", "thorough_cmd": f"env VERIF_TIER=thorough ./checks/run.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the public API only. VERIF_TIER selects the number of cases, VERIF_SEED every random choice."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
