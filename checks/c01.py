"""C01: a converged fit satisfies the optimality conditions of the documented objective."""
import fitrun
import moves
from vlib import TIER, Check, run_scenarios, start

start()
ck = Check("C01")
OPS = ["ScaleResponse", "ReflectResponse", "Solver", "PermuteRows", "PermuteCols", "RandomSelection", "HessApprox"]


def one_round(rng):
    scs = [fitrun.problem(rng) for _ in range(4000)]
    recs = run_scenarios(fitrun.run_fit, scs)
    lines = []
    for sc, r in zip(scs, recs):
        if "crash" in r:
            ck.violation(f"fit crashed: {r['crash']} [{fitrun.describe(sc)}]", sc)
        elif r["outcome"] != "ok" and not r["mustconv"]:
            continue  # a reported failure on a problem that need not be solvable
        else:
            lines.append((sc, r))
    conv = sum(r["conv"] for _, r in lines)
    well = [r["conv"] for _, r in lines if r["mustconv"]]
    ck.count("fits", len(scs))
    ck.count("converged", conv)
    ck.count("wellposed", len(well))
    ck.count("wellposed_converged", sum(well))
    good = [r["conv"] for sc, r in lines if fitrun.benign(sc)]
    ck.count("benign", len(good))
    ck.count("benign_converged", sum(good))
    if len(good) - sum(good) > max(2, 0.01 * len(good)):
        ck.violation(f"{len(good) - sum(good)} of {len(good)} strictly convex problems are not solved", {})
    if conv < 0.9 * len(scs) or sum(well) < 0.98 * len(well):
        ck.violation(f"{conv} of {len(scs)} fits and {sum(well)} of {len(well)} well-posed fits "
                     "converged", {})
    for i, c in ck.trace("FitTrace", [r for _, r in lines], "FitClauses"):
        sc, r = lines[i]
        ck.violation(f"{c} [{fitrun.describe(sc)}]", {"scenario": sc, "record": r})
    # the same problem in other units, by another route
    moves.check_chains(ck, rng, OPS, depth=2, k=500 if TIER == "quick" else 2000, kinds=("location", "log", "logit"))
    for sc, r in lines[:2]:
        ck.sample({"problem": fitrun.describe(sc), "intercept": r["b"], "coef": r["w"]})


ck.rounds(one_round)
ck.notes += ["first-order optimality is compared, so on non-convex combinations only "
             "stationarity is asserted"]
ck.finish()
