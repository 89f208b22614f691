"""Write MANIFEST.json from the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("TLA+ specification of the estimation problem; every recorded fit of the real library is validated by TLC "
            "(40-digit reals) against its first-order optimality clauses",
            "Randomised fits over all families, links, solvers, penalties, weights, offsets, bounds and containers; "
            "the oracle is exact, the inputs are sampled."),
    "C02": ("TLA+ models of monotone-constraint rows enumerated by TLC and replayed, plus TLC trace validation of "
            "constrained fits with multiplier certificates",
            "Row expansion is enumerated exhaustively for small formulas; numerical problems are sampled."),
    "C03": ("TLA+ model of penalty arguments enumerated by TLC, replayed on the real library and trace-validated",
            "All argument forms of the model; numbers sampled."),
    "C04": ("TLA+ transformation system of estimation problems (rescale, shift); histories replayed and validated by TLC",
            "Chains of transformations are generated by TLC; numbers sampled."),
    "C05": ("TLA+ transformation system of estimation problems (weights, copies, omitted rows) plus validation table; "
            "histories replayed and validated by TLC", "Chains are generated by TLC; numbers sampled."),
    "C06": ("TLA+ transformation system of estimation problems (offsets) plus validation table; histories replayed and "
            "validated by TLC", "Chains are generated by TLC; numbers sampled."),
    "C07": ("TLA+ model of container choices per call enumerated by TLC, replayed on the real library and "
            "trace-validated", "All pairs of fit/predict containers; numbers sampled."),
    "C08": ("TLA+ model of categorical encoding enumerated exhaustively by TLC and replayed on the real library",
            "Exhaustive within small constants (levels, missing values, frames)."),
    "C09": ("TLA+ model of formula terms enumerated by TLC and replayed; fits trace-validated",
            "Exhaustive over a small grammar; data sampled."),
    "C10": ("TLA+ model of path selection enumerated by TLC and replayed; every path point trace-validated by TLC",
            "Selectors exhaustive within small constants; numbers sampled."),
    "C11": ("TLA+ specification of cross-validation; recorded folds, deviances, selection and refit validated by TLC",
            "Randomised problems; exact oracle."),
    "C12": ("TLA+ specification of the sandwich estimators; recorded matrices validated by TLC",
            "Randomised problems; exact oracle."),
    "C13": ("TLA+ specification of Wald hypotheses; recorded tests validated by TLC",
            "Hypothesis forms enumerated; numbers sampled."),
    "C14": ("TLA+ specification of exponential dispersion families whose laws TLC checks; recorded evaluations of the "
            "distribution objects validated by TLC", "Laws on a grid, observations sampled; exact oracle."),
    "C15": ("TLA+ specification of links whose laws TLC checks; recorded evaluations validated by TLC",
            "Laws on a grid, observations sampled; exact oracle."),
    "C16": ("TLA+ life-cycle model of the estimator; behaviours generated by TLC replayed on the real library and the "
            "recorded histories validated", "Exhaustive call sequences to a small depth plus random deeper ones."),
    "C17": ("TLA+ frame conditions per public call; recorded before/after snapshots validated by TLC",
            "All call/container/option combinations of the model."),
    "C18": ("TLA+ decision table of configurations enumerated exhaustively by TLC and replayed; accepted ones "
            "trace-validated against the estimation problem", "Exhaustive over the option space of the model."),
    "C19": ("TLA+ state machine of the iteration loop checked by TLC; recorded diagnostics and warnings validated "
            "against it", "Model exhaustive for small constants; runs sampled."),
    "C20": ("TLA+ definitions of score and information criteria; recorded values validated by TLC",
            "Randomised problems; exact oracle."),
    "C21": ("TLA+ transformation system (starting point, seed, selection); histories replayed and validated by TLC",
            "Chains are generated by TLC; numbers sampled."),
    "C22": ("TLA+ specification of prediction; recorded predictions under reordering, splitting, offsets and weights "
            "validated by TLC", "Randomised problems; exact oracle."),
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        t, n = TECH[pid]
        checks.append(dict(property=pid, quick_cmd=f"./run.sh {pid} quick", thorough_cmd=f"./run.sh {pid} thorough",
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=pid, reason="no check has been built for it yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks are needed: everything is observed through public calls",
                    source_commits=[]))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
