"""C20: scores and information criteria equal their definitions."""
import pickle

import numpy as np
import pandas as pd

import args
import fitrun
import gen
import infer
from vlib import TIER, Check, Quiet, run_scenarios, start

start()
import glum  # noqa: E402

ck = Check("C20")


def vec(rng, v):
    if v is None or np.ndim(v) == 0:
        return v
    return [v, v.tolist(), pd.Series(v, index=np.arange(len(v))[::-1])][rng.integers(3)]


def job(seed):
    rng = np.random.default_rng(seed)
    sc, m = infer.fitted(rng)
    if sc is None:
        return []
    out = []
    unpen = sc["est"]["alpha"] == 0 and "lower_bounds" not in sc["est"] and sc["est"]["fit_intercept"]
    how = "plain"
    if rng.random() < 0.35:
        sib = infer.sibling(rng, sc)
        if sib is not None:
            how, m = sib
            unpen = False
    ops = []
    for _ in range(8):
        ops.append(str(rng.choice(["score", "score-other", "aic", "aicc", "bic", "predict", "se", "pickle", "refit"],
                                  p=[.2, .2, .14, .12, .14, .06, .06, .04, .04])))
    n = len(sc["y"])
    with Quiet(), np.errstate(all="ignore"):
        for o in ops:
            fmt = str(rng.choice(infer.FMTS))
            if o == "predict":
                m.predict(sc["X"][:3])
            elif o == "se":
                try:
                    m.std_errors(sc["X"], sc["y"])
                except Exception:
                    pass
            elif o == "pickle":
                m = pickle.loads(pickle.dumps(m))
            elif o == "refit":
                # fewer rows: later queries are about this fit
                k = n - int(rng.integers(0, 4))
                sc = dict(sc, X=sc["X"][:k], y=sc["y"][:k], s=sc["s"] if np.ndim(sc["s"]) == 0 else sc["s"][:k],
                          off=sc["off"] if np.ndim(sc["off"]) == 0 else sc["off"][:k])
                if sc["s"] is not None and np.ndim(sc["s"]) and len(np.unique(sc["y"][sc["s"] > 0])) < 3 or len(np.unique(sc["y"])) < 3:
                    return out
                n = k
                try:
                    m.fit(gen.to_format(sc["X"], fmt), sc["y"], sample_weight=sc["s"], offset=sc["off"])
                except Exception:
                    return out
                mu = np.asarray(m.predict(sc["X"], offset=sc["off"]), float)
                if not np.isfinite(mu).all() or m.n_iter_ >= sc["est"]["max_iter"]:
                    return out
            elif o.startswith("score"):
                if o == "score":
                    X, y, s, off = sc["X"], sc["y"], sc["s"], sc["off"]
                else:
                    X, y, s, off = infer.other_data(rng, sc, m)
                mu = np.asarray(m.predict(X, offset=off), float)
                if not np.isfinite(mu).all() or mu.max() > 1e6 or (gen.fam_base(sc["fam"]) not in ("normal", "ghs") and mu.min() < 1e-4):
                    continue
                sv = np.ones(len(y)) if s is None else np.broadcast_to(s, len(y))
                if len(np.unique(y[sv > 0])) < 2:
                    continue
                g = m.score(gen.to_format(X, fmt), vec(rng, y), sample_weight=vec(rng, s), offset=vec(rng, off))
                r = infer.args_record(sc, m, X, y, s, off)
                r.update(kind="score", got=float(g), train=bool(o == "score" and unpen and off is None), rtol=1e-11,
                         what="score", raised=False, about=f"{how}: {o} as {fmt} {fitrun.describe(sc)}")
                out.append(r)
            elif how != "cv":  # a cross-validated estimator has no criteria
                X, y, s = sc["X"], sc["y"], sc["s"]
                if rng.random() < 0.3:
                    s = [None, np.round(rng.uniform(0.5, 2, n), 2)][rng.integers(2)]
                if rng.random() < 0.2:
                    y = y[rng.permutation(n)]
                mu = np.asarray(m.predict(X), float)
                if not np.isfinite(mu).all() or mu.max() > 1e5 or (gen.fam_base(sc["fam"]) not in ("normal", "ghs") and mu.min() < 1e-3):
                    continue
                if gen.fam_base(sc["fam"]) not in ("normal", "ghs", "gaussian", "binomial") and y.max() > 60:
                    continue
                S = n if s is None else s * n if np.ndim(s) == 0 else s.sum()
                raised, g = False, 0.0
                try:
                    g = float(getattr(m, o)(gen.to_format(X, fmt), vec(rng, y), sample_weight=vec(rng, s)))
                except (ValueError, NotImplementedError, AttributeError):
                    raised = True
                r = infer.args_record(sc, m, X, y, s, None)
                r.update(kind="ic", got=g, raised=raised, train=False, what=o, rtol=1e-9, about=f"{how}: {o} as {fmt} after {ops} {fitrun.describe(sc)}")
                out.append(r)
    return out


def small_job(seed):
    """criteria of models with about as many parameters as rows"""
    rng = np.random.default_rng(seed)
    p = int(rng.integers(1, 4))
    fi = bool(rng.random() < 0.7)
    n = max(3, p + fi + int(rng.integers(0, 5)))
    fam = str(rng.choice(["normal", "poisson", "gamma", "binomial"]))
    X = np.round(rng.normal(size=(n, p)), 2)
    y = {"normal": lambda: np.round(X.sum(1) + rng.normal(size=n), 2), "poisson": lambda: rng.integers(0, 6, n) + 0.0,
         "gamma": lambda: np.round(rng.gamma(3, 1, n) + 0.1, 2), "binomial": lambda: (np.arange(n) % 2) + 0.0}[fam]()
    if len(np.unique(y)) < 2:
        return []
    est = dict(solver="auto", gradient_tol=None, max_iter=100, alpha=float(rng.choice([0.05, 0.3])), l1_ratio=float(rng.choice([0.0, 0.5, 1.0])), fit_intercept=fi)
    s = None if rng.random() < 0.5 else np.round(rng.uniform(0.5, 2, n), 2)
    sc = dict(X=X, y=y, s=s, off=None, fam=fam, link="auto", est=est, fmt="c", tol=1e-6)
    with Quiet(), np.errstate(all="ignore"):
        m = fitrun.estimator(sc)
        m.fit(X, y, sample_weight=s)
        mu = np.asarray(m.predict(X), float)
        if not np.isfinite(mu).all() or mu.max() > 1e3 or (fam != "normal" and mu.min() < 1e-3):
            return []
        if fam == "normal" and np.dot(np.ones(n) if s is None else s, (y - mu) ** 2) < 1e-3:
            return []
        out = []
        for o in rng.permutation(["aic", "aicc", "bic"]):
            raised, g = False, 0.0
            try:
                g = float(getattr(m, o)(X, y, sample_weight=s))
            except ValueError:
                raised = True
            r = infer.args_record(sc, m, X, y, s, None)
            r.update(kind="ic", got=g, raised=raised, train=False, what=str(o), rtol=1e-9, about=f"{o} of few rows {fitrun.describe(sc)}")
            out.append(r)
    return out


def validity():
    rng = np.random.default_rng(8)
    n = 20
    X = rng.normal(size=(n, 3))
    y = rng.poisson(np.exp(0.3 * X[:, 0])) + 0.0
    out = []
    P, F = "allowed", "forbidden"
    m = glum.GeneralizedLinearRegressor(family="poisson", alpha=0).fit(X, y)
    gh = glum.GeneralizedLinearRegressor(family=glum.GeneralizedHyperbolicSecant(), alpha=0).fit(X, y)
    tn = glum.GeneralizedLinearRegressor(family=glum.TweedieDistribution(2.5), alpha=0).fit(X, y + 0.5)
    tneg = glum.GeneralizedLinearRegressor(family=glum.TweedieDistribution(-1), link="log", alpha=0.1).fit(X, y + 0.5)
    # a model with as many parameters as rows less one
    k = 5
    small = glum.GeneralizedLinearRegressor(family="normal", alpha=0.1).fit(X[:k], y[:k] + X[:k, 0])
    path = glum.GeneralizedLinearRegressor(family="poisson", alpha_search=True, n_alphas=3, l1_ratio=0.5).fit(X, y)
    for call in ("aic", "aicc", "bic"):
        g = lambda mod: getattr(mod, call)
        for nm, Z, v in (("fewer", X[:-1], y[:-1]), ("more", np.r_[X, X[:1]], np.r_[y, y[:1]])):
            out.append(args.plain(F, f"{call} with {nm} rows", lambda: g(m)(Z, v)))
        out.append(args.plain(P, f"{call} same rows", lambda: g(m)(X, y)))
        out.append(args.plain(P, f"{call} of a path", lambda: g(path)(X, y)))
        for nm, mod, v in (("ghs", gh, y), ("power 2.5", tn, y + .5), ("power -1", tneg, y + .5)):
            out.append(args.plain(F, f"{call} {nm}", lambda: g(mod)(X, v)))
        out.append(args.plain(F, f"{call} unfitted", lambda: g(glum.GeneralizedLinearRegressor(family="poisson"))(X, y)))
        out.append(args.plain(F, f"{call} y of another length", lambda: g(m)(X, y[:-1])))
        out.append(args.plain(F, f"{call} wrong columns", lambda: g(m)(X[:, :2], y)))
    for k in (3, 4, 5):
        sm = glum.GeneralizedLinearRegressor(family="normal", alpha=0.01).fit(X[:k], X[:k].sum(1) + 0.1 * np.arange(k))
        out.append(args.plain(F, f"aicc of {k} rows", lambda: sm.aicc(X[:k], X[:k].sum(1) + 0.1 * np.arange(k))))
        out.append(args.plain(P, f"aic of {k} rows", lambda: sm.aic(X[:k], X[:k].sum(1) + 0.1 * np.arange(k))))
    out += args.weight_lines(n, lambda w: m.score(X, y, sample_weight=w))
    out += args.offset_lines(n, lambda o: m.score(X, y, offset=o))
    out.append(args.plain(F, "score y of another length", lambda: m.score(X, y[:-1])))
    out.append(args.plain(F, "score unfitted", lambda: glum.GeneralizedLinearRegressor().score(X, y)))
    return out


def one_round(rng):
    m = 200 if TIER == "quick" else 1500
    seeds = [int(rng.integers(1 << 40)) for _ in range(m)]
    lines = []
    few = [int(rng.integers(1 << 40)) for _ in range(m)]
    for sd, r in list(zip(seeds, run_scenarios(job, seeds))) + list(zip(few, run_scenarios(small_job, few))):
        if isinstance(r, dict):
            ck.violation(f"a query raised: {r['crash']}", {"seed": sd, "tb": r.get("tb")})
        else:
            lines += r
    if len(lines) < 2 * m:
        ck.violation(f"only {len(lines)} values of {m} models", {})
    for r in lines:
        ck.count(r["what"])
    for i, c in ck.trace("ScoreTrace", lines, "QueryClauses"):
        ck.violation(f"{c[:500]} [{lines[i]['about']}]", lines[i])
    with Quiet():
        args.check(ck, validity())


ck.rounds(one_round)
ck.finish()
