"""Writes MANIFEST.json from the registered checks (run from /verif)."""
import json
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
    "C01": "explicit-state search: all operation sequences of the real calculator up to a depth, breadth-first closure of its reachable states, against an exact reference model",
    "C02": "bounded exhaustive enumeration of batch sizes, labels and progress modes on the real code, against an exact reference model",
    "C03": "fault enumeration inside bounded model checking: every prediction call (and pair of calls) fails, then retry",
    "C09": "stateless exploration of every outcome of the random generator; exact outcome distribution against the reference distribution",
    "C10": "stateless exploration of every outcome of the random generator; exact outcome distribution against the reference distribution",
    "C17": "stateless exploration of every sample the generator can draw, differential against unsampled run",
    "C18": "all interleavings of the calls of two equally seeded objects with injected disturbances",
    "C16": "all call histories up to a depth with snapshots of all inputs, tables and figures",
    "C19": "all histories of fits over two objects up to a depth, differential against fresh objects",
    "C20": "all sequences of explanations on a shared calculator up to a depth; all single-change mismatches",
    "C21": "exhaustive life-cycle table (method x state x operation) and all histories of rejected calls up to a depth",
    "C11": "exhaustive enumeration of small forests and node numberings in real models, against a reference model",
    "C12": "exhaustive enumeration of small forests and node numberings in real models, against a reference model",
    "C13": "exhaustive enumeration of small boosted ensembles in real XGBoost/LightGBM models, against a reference model",
    "C14": "exhaustive enumeration of small boosted ensembles in real XGBoost/LightGBM models, against a reference model",
    "C25": "exhaustive enumeration of all pairs of weak orderings and of a pool of explanations, against a reference model",
    "C29": "exhaustive enumeration of all reorderings, renamings and recodings of small inputs, differential",
}
DEFAULT = "bounded exhaustive enumeration of models, data and options on the real code, against an exact reference model"
FIG = "bounded exhaustive enumeration of explanations and plot options; figures read back and compared with a reference model"
for k in ("C22", "C23", "C24", "C26", "C27", "C32"):
    TECH[k] = FIG


def main():
    sys.path.insert(0, HERE)
    os.chdir(HERE)
    from mc.run import registry
    props = [json.loads(l) for l in open("properties.jsonl")]
    checks = []
    for p in props:
        c = registry(p["id"])
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash run.sh %s quick" % p["id"],
            "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "technique": TECH.get(p["id"], DEFAULT),
            "level": "model_checking",
            "level_note": "Holds on every execution within the bound: %s. Assumes: %s. Trusts numpy/pandas/scikit-learn/XGBoost/"
                          "LightGBM/matplotlib and the reference model in mc/." % (c.bound("quick"), "; ".join(c.assumptions)),
        })
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo: randomness is controlled by replacing numpy.random.default_rng before artemis is "
                        "imported, models are real objects given by tables or trees. Commits in /repo are fixes only "
                        "(known_findings.txt)."},
              open("MANIFEST.json", "w"), indent=1)
    print(len(checks))


main()
