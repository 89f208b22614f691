"""C04: internal standardization is unobservable unless scale_predictors asks for it."""
import ineq
import moves
from vlib import TIER, Check, start

start()
ck = Check("C04")
OPS = ["ScaleCol", "ReflectCol", "ShiftCol", "PermuteCols", "AddConstCol", "ExplicitScale", "ScaleWeights", "Single",
       "AddZeroRows", "SplitRows", "VacuousBounds", "Container", "Solver", "StartAt", "OffsetXv"]


def one_round(rng):
    moves.check_chains(ck, rng, OPS, depth=2, k=900 if TIER == "quick" else 3000)
    ineq.check(ck, rng, 250 if TIER == "quick" else 1000, "constrained_and_scaled", scale=True, fi=True)


ck.rounds(one_round)
ck.notes += ["reported means are compared when an intercept is fitted (without one the predictors are not centred)"]
ck.finish()
