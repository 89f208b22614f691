"""C05: sample weights act as documented."""
import numpy as np

import args
import ineq
import moves
from vlib import TIER, Check, start

start()
import glum  # noqa: E402

ck = Check("C05")
OPS = ["ScaleWeights", "OnesWeights", "NoWeights", "SplitRows", "SplitOneRow", "DropZeroRows", "AddZeroRows",
       "GarbageZeroRows", "PermuteRows", "Container", "Single", "ConstOffset", "ShiftCol", "ExplicitScale"]


def validity():
    n = 24
    rng = np.random.default_rng(5)
    X = rng.normal(size=(n, 2))
    y = np.exp(0.3 * X[:, 0]) + rng.random(n)
    out = []
    for fam in ("poisson", "normal", "gamma"):
        out += args.weight_lines(n, lambda w: glum.GeneralizedLinearRegressor(family=fam, alpha=0.1).fit(
            X, y, sample_weight=w))
    out += args.weight_lines(n, lambda w: glum.GeneralizedLinearRegressorCV(
        family="poisson", l1_ratio=0.0, alphas=[1.0, 0.1], cv=2).fit(X, y, sample_weight=w))
    m = glum.GeneralizedLinearRegressor(family="poisson", alpha=0.1).fit(X, y)
    out += args.weight_lines(n, lambda w: m.predict(X, sample_weight=w))
    out += args.weight_lines(n, lambda w: m.score(X, y, sample_weight=w))
    return out


def one_round(rng):
    moves.check_chains(ck, rng, OPS, depth=2, k=800 if TIER == "quick" else 3000)
    for wk in ("big", "int", "zeros"):
        ineq.check(ck, rng, 80 if TIER == "quick" else 400, "constrained_with_weights", wkind=wk)
    args.check(ck, validity())


ck.rounds(one_round)
ck.finish()
