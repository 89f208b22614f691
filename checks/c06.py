"""C06: offsets enter the linear predictor exactly once, everywhere."""
import numpy as np

import args
import ineq
import moves
import preds
from vlib import TIER, Check, start

start()
import glum  # noqa: E402

ck = Check("C06")
OPS = ["ConstOffset", "OffsetXv", "ZeroOffset", "NoOffset", "SpreadOffset", "ShiftCol", "AddZeroRows", "SplitRows",
       "Container", "Single", "PermuteRows", "Solver", "StartAt", "WarmStart"]


def validity():
    n = 24
    rng = np.random.default_rng(5)
    X = rng.normal(size=(n, 2))
    y = np.exp(0.3 * X[:, 0]) + rng.random(n)
    out = []
    for fam in ("poisson", "normal", "gamma"):
        out += args.offset_lines(n, lambda o: glum.GeneralizedLinearRegressor(family=fam, alpha=0.1).fit(X, y, offset=o))
    out += args.offset_lines(n, lambda o: glum.GeneralizedLinearRegressorCV(
        family="poisson", l1_ratio=0.0, alphas=[1.0, 0.1], cv=2).fit(X, y, offset=o))
    m = glum.GeneralizedLinearRegressor(family="poisson", alpha=0.1).fit(X, y)
    out += args.offset_lines(n, lambda o: m.covariance_matrix(X, y, offset=o))
    return out


def one_round(rng):
    moves.check_chains(ck, rng, OPS, depth=2, k=800 if TIER == "quick" else 3000)
    preds.check(ck, rng, 150)
    ineq.check(ck, rng, 250 if TIER == "quick" else 1000, "constrained_with_offset", offkind="vec")
    args.check(ck, validity())


ck.rounds(one_round)
ck.finish()
