"""Regularization paths: scenarios and recorded lines for PathTrace."""
import numpy as np

import fitrun
import gen
from vlib import Quiet

GRIDS = [1.0, 0.4, 0.15, 0.05, 0.02, 0.008, 0.003]


def problem(rng, auto=None, **kw):
    """a scenario with alpha_search"""
    l1 = float(rng.choice([0.0, 0.3, 0.7, 1.0]))
    kw.setdefault("l1", l1)
    sc = fitrun.problem(rng, alpha=0.05, nuisance=False, size="small", **kw)
    est = sc["est"]
    if est["solver"] not in ("auto", "irls-cd") and np.ndim(est.get("P1", 1)) == 0 and kw["l1"] > 0:
        est["solver"] = "irls-cd"
    est["alpha_search"] = True
    est.pop("start_params", None)
    sc["auto"] = bool(rng.random() < 0.4) if auto is None else auto
    if not sc["auto"]:
        k = int(rng.integers(1, 6))
        a = [GRIDS[i] for i in rng.permutation(len(GRIDS))[:k]]
        t = rng.random()
        if t < 0.4:
            a = sorted(a, reverse=True)
        elif t < 0.5:
            a = sorted(a)
        if rng.random() < 0.2 and len(sc["y"]) > 3 * sc["X"].shape[1]:
            a[-1 if rng.random() < 0.5 else int(rng.integers(k))] = 0.0
        est["alpha"] = [a, tuple(a), np.array(a)][rng.integers(3)]
        if rng.random() < 0.1:
            est["alphas"] = np.array(a)
            est["alpha"] = None
        sc["alphas"] = a
    else:
        if est["solver"] == "lbfgs":  # stops on the objective, at a gradient that grows with alpha
            est["solver"] = "irls-ls"
        est["alpha"] = None
        est["n_alphas"] = int(rng.integers(2, 9))
        sc["mk"], sc["mv"] = str(rng.choice(["default", "ratio", "ratio", "min", "both"])), 0.0
        if sc["mk"] in ("ratio", "both"):
            est["min_alpha_ratio"] = sc["mv"] = float(rng.choice([0.3, 0.05, 1e-3]))
        if sc["mk"] in ("min", "both"):
            est["min_alpha"] = sc["mv"] = float(rng.choice([1e-4, 1e-3]))
            sc["mk"] = "min"
    return sc


def grid_exact(sc):
    """the intercept-only model has a closed form and every coefficient is penalised"""
    _, f = gen.family(sc["fam"])
    _, lk = gen.link(sc["link"], sc["fam"])
    est = sc["est"]
    P1 = est.get("P1", "identity")
    if est["l1_ratio"] == 0 or not (P1 is None or isinstance(P1, str) or (np.asarray(P1) > 0).all()):
        return False
    if "lower_bounds" in est or "upper_bounds" in est:
        return False
    if not est["fit_intercept"]:
        return True
    if sc["off"] is None:
        return True
    return (f["name"], lk["name"]) == ("normal", "identity") or (
        lk["name"] == "log" and f["name"] in ("normal", "poisson", "gamma", "invgauss", "tweedie"))


def run(sc, model=None, asks=True):
    """fit; lines about the path, the grid and selections"""
    rec = fitrun.base_record(dict(sc, est={**sc["est"], "alpha": None}))
    m = model if model is not None else fitrun.estimator(sc)
    with Quiet() as q, np.errstate(all="ignore"):
        try:
            m.fit(gen.to_format(sc["X"], sc["fmt"]), sc["y"], sample_weight=sc["s"], offset=sc["off"])
            rec["outcome"] = "ok"
        except Exception as ex:
            rec.update(kind="path", outcome=f"{type(ex).__name__}: {str(ex)[:120]}", b=0.0, w=[], bs=[], ws=[], alphas=[], conv=False)
            return [rec], None
    rec["conv"] = "ConvergenceWarning" not in q.names and not any("failed" in t for t in q.messages)
    al = np.asarray(sc["alphas"] if not sc["auto"] else m._alphas, float)
    rec.update(kind="path", alphas=al, b=float(m.intercept_), w=np.asarray(m.coef_, float),
               bs=np.asarray(m.intercept_path_, float) * np.ones(len(m.coef_path_)), ws=np.asarray(m.coef_path_, float),
               about=fitrun.describe(sc))
    out = [rec]
    if sc["auto"]:
        g = dict(rec, kind="grid", nal=sc["est"]["n_alphas"], mk=sc["mk"], mv=float(sc["mv"]),
                 exact=bool(grid_exact(sc)), gtol=1e-9)
        out.append(g)
    return out, m


def ask_args(rng, sc, p):
    n = int(rng.choice([1, 2, 3]))
    X = np.round(sc["X"][rng.integers(len(sc["y"]), size=n)] + 0.1 * rng.normal(size=(n, p)) * sc["X"].std(0), 3)
    ok = str(rng.choice(["none", "scalar", "vec"]))
    return X, {"none": None, "scalar": 0.25, "vec": np.round(rng.uniform(-.5, .5, n), 3)}[ok]


def ask_line(rng, sc, m, bs, ws, want, kw, seq, fmt="c", link=None):
    """answers of predict and linear_predictor for a selection"""
    p = ws.shape[1]
    X, off = ask_args(rng, sc, p)
    _, lrec = gen.link(sc["link"], sc["fam"])
    with Quiet(), np.errstate(all="ignore"):
        Xa = gen.to_format(X, fmt)
        lin = np.asarray(m.linear_predictor(Xa, offset=off, **kw), float)
        mu = np.asarray(m.predict(Xa, offset=off, **kw), float)
    if not np.isfinite(mu).all():
        return None
    return dict(kind="ask", X=X, ok=fitrun.kind(off), off=fitrun.raw(off), link=lrec, bs=bs, ws=ws, want=[int(k) for k in want],
                seq=bool(seq), lin=lin, mu=mu, about=f"{kw} {fitrun.describe(sc)}")
