"""Replay of configurations (Config.tla) into the library."""
import traceback

import numpy as np

import args
import fitrun
import gen
import ineq
from vlib import Quiet

FAM = {"normal": ("normal", "auto"), "normallog": ("normal", "log"), "poisson": ("poisson", "auto")}
A0 = np.array([[1.0, 0.0, 0.0], [0.0, -1.0, 1.0]])
LB, UB = np.array([-0.2, -0.1, -np.inf]), np.array([0.15, np.inf, 0.1])
NAMES = ["x", "u", "v"]


def data(cfg, rng):
    """a problem on which every option of the model makes a difference"""
    n = int(rng.integers(40, 60))
    X = np.round(rng.normal(size=(n, 3)) * [1.0, 2.0, 0.7] + [0.0, 0.3, 0.0], 3)
    eta = 0.2 + X @ np.array([0.5, -0.2, 0.6]) * (0.7 if cfg["fam"] != "normal" else 1.0)
    off = np.round(rng.uniform(-0.3, 0.3, n), 3) if rng.random() < 0.5 else None
    e = eta + (0 if off is None else off)
    if cfg["fam"] == "normal":
        y = np.round(e + 0.5 * rng.normal(size=n), 3)
    elif cfg["fam"] == "normallog":
        y = np.round(np.maximum(np.exp(e) + 0.1 * rng.normal(size=n), 0.05), 3)
    else:
        y = rng.poisson(np.exp(e)).astype(float)
    s = np.round(rng.uniform(0.5, 2, n), 3) if rng.random() < 0.5 else None
    return X, y, s, off


def arguments(cfg, solver):
    e = dict(fit_intercept=cfg["fi"], scale_predictors=cfg["scale"], solver=solver)
    al = 0.08 if cfg["alpha"] == "pos" else 0.0
    if cfg["est"] == "cv":
        e.update(alphas=[0.08, 0.02], cv=3, l1_ratio={"zero": 0.0, "half": 0.5, "mix": [0.0, 0.5]}[cfg["l1"]])
    else:
        e["l1_ratio"] = 0.0 if cfg["l1"] == "zero" else 0.5
        if cfg["path"] == "search":
            e.update(alpha_search=True, alpha=[0.08, 0.02] if al else [0.0])
        else:
            e["alpha"] = al
    if cfg["p1"] == "zeros":
        e["P1"] = np.zeros(3)
    if cfg["p1"] == "some":
        e["P1"] = np.array([0.0, 1.0, 1.5])
    if cfg["bounds"] in ("both", "lower"):
        e["lower_bounds"] = LB.copy()
    if cfg["bounds"] in ("both", "upper"):
        e["upper_bounds"] = UB.copy()
    if cfg["bounds"] == "scalar":
        e["upper_bounds"] = 0.12
    b = np.array([0.1, 0.2]) if cfg["cons"] == "ineqb" else np.zeros(2)
    if cfg["cons"] in ("ineq0", "ineqb", "halfA", "monoineq"):
        e["A_ineq"] = A0.copy()
    if cfg["cons"] in ("ineq0", "ineqb", "halfb", "monoineq"):
        e["b_ineq"] = b
    if cfg["cons"].startswith("mono"):
        e["monotonic_constraints"] = {"x": "decreasing", "u": "increasing"}
    if cfg["cons"] in ("mono", "monoineq"):
        e["formula"] = "x + u + v"
    return e


def run(cfg, e, D):
    import glum
    import pandas as pd

    X, y, s, off = D
    cls = glum.GeneralizedLinearRegressorCV if cfg["est"] == "cv" else glum.GeneralizedLinearRegressor
    fam, lk = FAM[cfg["fam"]]
    m = cls(family=fam, link=lk, **e)
    arg = pd.DataFrame(X, columns=NAMES) if "formula" in e else X
    out = dict(outcome="ok", msg=True, m=m)
    with Quiet() as q, np.errstate(all="ignore"):
        try:
            m.fit(arg, y, sample_weight=s, offset=off)
        except Exception as ex:
            out.update(outcome=args.exname(ex), msg=bool(str(ex).strip()))
            out["numeric"] = any("scipy" in f.filename and "optimize" in f.filename
                                 for f in traceback.extract_tb(ex.__traceback__))
    out["conv"] = not any(n == "ConvergenceWarning" for n in q.names)
    out["fitted"] = hasattr(m, "coef_")
    return out


def tolerances(cfg, chosen):
    t = dict(max_iter=500)
    if cfg["cons"] in ("ineq0", "ineqb", "mono"):
        if chosen == "trust-constr":
            t["max_iter"] = 3000
        else:
            t["gradient_tol"] = 1e-5
    else:
        t["gradient_tol"] = 1e-7
        if chosen == "trust-constr":
            t["max_iter"] = 3000
    return t


def job(item):
    """cfg, seed -> the ConfigTrace line and the lines judging what was solved"""
    cfg, seed = item
    rng = np.random.default_rng(seed)
    D = data(cfg, rng)
    c = {k: v for k, v in cfg.items() if k not in ("verdict", "chosen", "wrong")}
    tol = tolerances(cfg, cfg["chosen"])
    e = {**arguments(cfg, cfg["solver"]), **tol}
    r = run(cfg, e, D)
    if cfg["fam"] != "normal" and r.get("numeric"):  # the iterates overflowed inside the optimizer: nothing was decided about the arguments
        return None
    line = dict(c=c, outcome=r["outcome"], msg=r["msg"], fitted=r["fitted"], same=True)
    res = dict(line=line, fits=[], iq=[], conv=r["conv"])
    if r["outcome"] != "ok":
        return res
    m = r["m"]
    if cfg["solver"] == "auto":
        r2 = run(cfg, {**e, "solver": cfg["chosen"]}, D)
        line["same"] = r2["outcome"] == "ok" and bool(
            np.allclose(m.coef_, r2["m"].coef_, rtol=1e-9, atol=1e-11)
            and np.allclose(m.intercept_, r2["m"].intercept_, rtol=1e-9, atol=1e-11)
            and m.n_iter_ == r2["m"].n_iter_)
    if cfg["verdict"] == "reject":
        return res
    X, y, s, off = D
    fam, lk = FAM[cfg["fam"]]
    if cfg["est"] == "cv":
        points = [(float(m.alpha_), float(m.l1_ratio_), float(m.intercept_), m.coef_)]
    elif cfg["path"] == "search":
        points = [(a, e["l1_ratio"], b, w) for a, b, w in zip(e["alpha"], m.intercept_path_, m.coef_path_)]
    else:
        points = [(e["alpha"], e["l1_ratio"], float(m.intercept_), m.coef_)]
    for al, l1, b, w in points:
        sc = dict(X=X, y=y, s=s, off=off, fam=fam, link=lk, fmt="c", tol=tol.get("gradient_tol", 1e-7),
                  est={**e, "alpha": al, "l1_ratio": l1})
        rec = fitrun.base_record(sc)
        rec.update(outcome="ok", conv=r["conv"], b=float(b), w=np.asarray(w, float), niter=0, mustconv=False)
        if cfg["cons"] in ("ineq0", "ineqb", "mono"):
            if cfg["cons"] == "mono":
                A, bb = np.array([[1.0, 0, 0], [0, -1.0, 0]]), np.zeros(2)
            else:
                A, bb = e["A_ineq"], e["b_ineq"]
            res["iq"].append(ineq.finish_record(rec, A, bb, cfg["chosen"]))
        else:
            res["fits"].append(rec)
    return res


def describe(cfg):
    return " ".join(f"{k}={v}" for k, v in cfg.items() if k not in ("verdict", "chosen", "wrong"))
