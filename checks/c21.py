"""C21: starting values and randomness affect the route, not the destination."""
import numpy as np

import args
import moves
from vlib import TIER, Check, start

start()
import glum  # noqa: E402

ck = Check("C21")
OPS = ["StartAt", "StartInfeasible", "StartAtSolution", "WarmStart", "RandomSelection", "HessApprox", "Solver", "ScaleCol",
       "ShiftCol", "Single", "ConstOffset", "AddZeroRows"]


def validity():
    n, p = 24, 2
    rng = np.random.default_rng(5)
    X = rng.normal(size=(n, p))
    y = np.exp(0.3 * X[:, 0]) + rng.random(n)
    out = []
    for fi in (True, False):
        w = p + fi
        nan = np.full(w, 0.1)
        nan[0] = np.nan
        for nm, v in [("right", np.full(w, 0.1)), ("list", [0.1] * w), ("ints", np.zeros(w, int)), ("long", np.zeros(w + 1)),
                      ("short", np.zeros(w - 1)), ("scalar", 0.1), ("two-dimensional", np.zeros((1, w))), ("nan", nan)]:
            out.append(args.line("start_params", nm, v, w, lambda: glum.GeneralizedLinearRegressor(
                family="poisson", alpha=0.1, fit_intercept=fi, start_params=v).fit(X, y)))
            out.append(args.line("start_params", "cv " + nm, v, w, lambda: glum.GeneralizedLinearRegressorCV(
                family="poisson", alphas=[1.0, 0.1], l1_ratio=0.0, cv=2, fit_intercept=fi, start_params=v).fit(X, y)))
    for v in ("zero", "guess"):
        out.append(args.plain("forbidden", f"start_params={v!r}", lambda: glum.GeneralizedLinearRegressor(
            alpha=0.1, start_params=v).fit(X, y)))
    for v in ("cyclical", 3, None):
        out.append(args.plain("forbidden", f"selection={v!r}", lambda: glum.GeneralizedLinearRegressor(
            alpha=0.1, selection=v).fit(X, y)))
    return out


def reproducible(rng):
    """same integer seed, same result, bit for bit"""
    lines = []
    for k in range(40):
        f = dict(fi=bool(k % 2), scale=False, pen=["enet", "lasso", "ridge"][k % 3], bnd=bool(k % 5 == 0), w="none", o="none")
        sc = moves.base(rng, f)
        sc["est"].update(solver="irls-cd", selection="random", random_state=int(rng.integers(1000)), gradient_tol=1e-5)
        a, m1 = moves.fit(sc)
        np.random.seed(k)
        b, m2 = moves.fit(sc)
        lines.append(dict(kind="same", a=np.append(m1.coef_, [m1.intercept_, m1.n_iter_]).astype(float),
                          b=np.append(m2.coef_, [m2.intercept_, m2.n_iter_]).astype(float), rtol=0.0))
    for i, c in ck.trace("PredTrace", lines, "PredClauses", label="reproducible"):
        ck.violation(f"same seed, different result {c}", lines[i])


def one_round(rng):
    moves.check_chains(ck, rng, OPS, depth=2, k=800 if TIER == "quick" else 3000)
    args.check(ck, validity())
    reproducible(rng)


ck.rounds(one_round)
ck.finish()
