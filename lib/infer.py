"""Fitted models and queries about them (covariance, tests, scores)."""
import numpy as np
import pandas as pd

import fitrun
import gen
import moves
from vlib import Quiet

COMBOS = [("normal", "auto"), ("normal", "log"), ("poisson", "auto"), ("poisson", "identity"), ("gamma", "log"),
          ("gamma", "identity"), ("binomial", "auto"), ("binomial", "cloglog"), ("tweedie", "auto"), ("negbin", "auto"),
          ("negbin:0.5", "auto"), ("ghs", "auto"), ("invgauss", "log"), ("tweedie:1.25", "log"), ("tweedie:3", "auto"),
          ("poisson", "tweedie:1.5"), ("normal", "tweedie:0"), ("tweedie:0", "auto"), ("tweedie:2.5", "log")]
FMTS = ["c", "f", "nc", "csc", "csr", "coo", "tm-dense", "tm-sparse", "tm-split", "df", "polars", "list"]


def fitted(rng, alpha=None, tries=6, **over):
    """(scenario, fitted estimator); the scenario's est is what was asked for"""
    for _ in range(tries):
        f = dict(fi=bool(rng.random() < 0.75), scale=False, pen=str(rng.choice(["zero", "zero", "ridge", "enet"])) if alpha is None else alpha,
                 bnd=False, w=str(rng.choice(["none", "unif", "int", "scalar", "zeros"])), o=str(rng.choice(["none", "vec", "scalar"])))
        combo = COMBOS[rng.integers(len(COMBOS))]
        _, lrec = gen.link(combo[1], combo[0])
        if lrec["name"] == "identity" and gen.fam_base(combo[0]) in ("poisson", "gamma") or combo[1] == "tweedie:1.5":
            f["o"] = "none"
        try:
            sc = moves.base(rng, f, combo)
            if f["fi"] and rng.random() < 0.3:
                sc["est"]["scale_predictors"] = True
            if rng.random() < 0.2:
                sc["est"]["lower_bounds"] = -0.05
            sc["est"].update(over)
            sc["fmt"] = str(rng.choice(FMTS))
            sc["est"]["max_iter"] = 300
            m = fitrun.estimator(sc)
            with Quiet() as q, np.errstate(all="ignore"):
                m.fit(gen.to_format(sc["X"], sc["fmt"]), sc["y"], sample_weight=sc["s"], offset=sc["off"])
                mu = np.asarray(m.predict(sc["X"], offset=sc["off"]), float)
            if "ConvergenceWarning" in q.names or not np.isfinite(mu).all() or np.abs(mu).max() > 1e6:
                continue
            if gen.fam_base(combo[0]) in ("poisson", "gamma", "negbin", "invgauss", "tweedie") and mu.min() < 1e-3:
                continue
            if gen.fam_base(combo[0]) == "binomial" and (mu.min() < 1e-4 or mu.max() > 1 - 1e-4):
                continue
            return sc, m
        except Exception:
            continue
    return None, None


def args_record(sc, m, X=None, y=None, s="same", off="same"):
    r = fitrun.base_record(dict(sc, X=sc["X"] if X is None else X, y=sc["y"] if y is None else y,
                                s=sc["s"] if isinstance(s, str) else s, off=sc["off"] if isinstance(off, str) else off))
    r["b"], r["w"] = float(m.intercept_), np.asarray(m.coef_, float)
    return r


def other_data(rng, sc, m):
    """data the model was not fitted on"""
    while True:
        ix = rng.integers(len(sc["y"]), size=2 * len(sc["y"]))
        n = int(rng.integers(len(sc["y"]) // 2 + len(sc["X"][0]) + 2, len(sc["y"]) + 4))
        ix = ix[:n]
        X = sc["X"][ix]
        if np.linalg.cond(np.c_[np.ones(n), X / sc["X"].std(0)]) < 1e4:
            break
    y = sc["y"][rng.permutation(ix)]
    s = [None, 1.5, np.round(rng.uniform(0.5, 3, n), 2)][rng.integers(3)]
    off = None if np.ndim(sc["off"]) == 0 else np.round(rng.uniform(-0.3, 0.3, n), 3)
    return X, y, s, off


def labels(rng, grp):
    """a labelling of the same partition"""
    k = int(rng.integers(7))
    M = int(grp.max()) + 1
    perm = rng.permutation(M)
    if k == 0:
        return grp
    if k == 1:
        return perm[grp] * 7 - 3
    if k == 2:
        return np.array([f"g{perm[g]}" for g in grp])
    if k == 3:
        return (perm[grp] + 0.5)
    if k == 4:
        return pd.Series(perm[grp], index=np.arange(len(grp))[::-1])
    if k == 5:
        return [f"g{perm[g]}" for g in grp]
    return np.array([f"x{perm[g]}" for g in grp], dtype=object)


def sibling(rng, sc, **fit):
    """the same data fitted by another kind of estimator (a path or a cross-validation): (kind, estimator) or None"""
    import glum

    est = {k: v for k, v in sc["est"].items() if k not in ("alpha", "solver", "start_params")}
    a = float(sc["est"].get("alpha") or 0.0)
    kind = ["path", "cv"][rng.integers(2)]
    fa, _ = gen.family(sc["fam"])
    la, _ = gen.link(sc["link"], sc["fam"])
    if kind == "path":
        m = glum.GeneralizedLinearRegressor(family=fa, link=la, alpha=[a + 0.3, a], alpha_search=True, **est)
    else:
        m = glum.GeneralizedLinearRegressorCV(family=fa, link=la, alphas=[[a, a + 0.05], [a + 0.01]][rng.integers(2)],
                                              cv=int(rng.integers(2, 4)), **est)
    with Quiet(), np.errstate(all="ignore"):
        try:
            m.fit(gen.to_format(sc["X"], sc["fmt"]), sc["y"], sample_weight=sc["s"], offset=sc["off"], **fit)
        except Exception as ex:
            if isinstance(ex, (np.linalg.LinAlgError, ValueError)) and kind == "cv":
                return None  # a fold without a solution
            raise
        mu = np.asarray(m.predict(sc["X"], offset=sc["off"]), float)
    low = 1e-4 if gen.fam_base(sc["fam"]) == "binomial" else 1e-3
    if not np.isfinite(mu).all() or np.abs(mu).max() > 1e6 or gen.fam_base(sc["fam"]) not in ("normal", "ghs") and mu.min() < low \
            or gen.fam_base(sc["fam"]) == "binomial" and mu.max() > 1 - low:
        return None
    return kind, m
