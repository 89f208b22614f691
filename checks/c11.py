"""C11: cross-validation selects the minimiser of the held-out deviance."""
import numpy as np
import pandas as pd

import args
import fitrun
import gen
import paths
from vlib import TIER, Check, Quiet, run_scenarios, start

start()
import glum  # noqa: E402
from sklearn.model_selection import KFold, PredefinedSplit, ShuffleSplit  # noqa: E402

ck = Check("C11")
COMBOS = [("normal", "auto"), ("normal", "auto"), ("poisson", "auto"), ("poisson", "log"), ("gamma", "log"), ("binomial", "auto"),
          ("binomial", "cloglog"), ("tweedie", "auto"), ("negbin", "auto"), ("tweedie:1.25", "log"), ("invgauss", "log"),
          ("normal", "log"), ("ghs", "auto")]


def problem(rng, **kw):
    kw.setdefault("combo", COMBOS[rng.integers(len(COMBOS))])
    p = int(rng.choice([1, 2, 3, 4]))
    sc = fitrun.problem(rng, p=p, n=int(rng.integers(6 * p + 20, 6 * p + 36)), alpha=0.05, l1=0.5, nuisance=False,
                        wkind=str(rng.choice(["none", "unif", "big", "int", "scalar"])), size="small", **kw)
    est = sc["est"]
    est.pop("start_params", None)
    est.pop("alpha")
    l1 = [0.0, 0.5, 1.0, [0.5], [0.2, 0.9], [0.0, 1.0, 0.4], [0.0, 0.0001], np.array([0.3, 0.7])][rng.integers(8)]
    est["l1_ratio"] = l1
    hasl1 = np.any(np.asarray(l1) > 0)
    if hasl1 and est["solver"] not in ("auto", "irls-cd"):
        est["solver"] = "irls-cd"
    if est["solver"] == "lbfgs":
        est["solver"] = "irls-ls"
    if rng.random() < 0.5:
        k = int(rng.integers(1, 6))
        a = [paths.GRIDS[i] for i in rng.permutation(len(paths.GRIDS))[:k]]
        est["alphas"] = [a, np.array(a), tuple(a)][rng.integers(3)]
    else:
        est["n_alphas"] = int(rng.integers(2, 7))
        est["min_alpha_ratio"] = float(rng.choice([0.05, 1e-3]))
    n = len(sc["y"])
    t = rng.integers(7)
    if t == 0:
        est["cv"] = None
    elif t < 3:
        est["cv"] = int(rng.integers(2, 5))
    elif t == 3:
        est["cv"] = KFold(3, shuffle=True, random_state=int(rng.integers(100)))
    elif t == 4:
        perm = rng.permutation(n)
        cut = [perm[: n // 3], perm[n // 3: n // 2]]
        est["cv"] = [(np.setdiff1d(np.arange(n), c), c) for c in cut]
    elif t == 5:
        f = rng.integers(-1, 3, n)
        f[:9] = [0, 1, 2] * 3
        est["cv"] = PredefinedSplit(f)
    else:
        est["cv"] = ShuffleSplit(2, test_size=0.3, random_state=int(rng.integers(100)))
    return sc


def splits(cv, n):
    from sklearn.model_selection import check_cv

    return list(check_cv(cv).split(np.zeros((n, 1))))


def estimator(sc, **over):
    fa, _ = gen.family(sc["fam"])
    la, _ = gen.link(sc["link"], sc["fam"])
    return glum.GeneralizedLinearRegressorCV(family=fa, link=la, **{**sc["est"], **over})


def sub(sc, ix, l1):
    pick = lambda v: v if v is None or np.ndim(v) == 0 else v[ix]
    e = {k: v for k, v in sc["est"].items() if k not in ("alphas", "cv", "n_alphas", "min_alpha_ratio")}
    return dict(sc, X=sc["X"][ix], y=sc["y"][ix], s=pick(sc["s"]), off=pick(sc["off"]), est={**e, "l1_ratio": float(l1), "alpha": None})


def record(sc, ix, l1):
    r = fitrun.base_record(sub(sc, ix, l1))
    r["mustconv"] = False
    return r


def job(seed):
    rng = np.random.default_rng(seed)
    sc = problem(rng)
    n, p = sc["X"].shape
    m = estimator(sc)
    with Quiet() as q, np.errstate(all="ignore"):
        try:
            m.fit(gen.to_format(sc["X"], sc["fmt"]), sc["y"], sample_weight=sc["s"], offset=sc["off"])
        except Exception as e:
            return sc, f"{type(e).__name__}: {str(e)[:200]}"
    conv = "ConvergenceWarning" not in q.names and not any("failed" in t for t in q.messages)
    about = fitrun.describe(sc)
    l1s = np.atleast_1d(sc["est"]["l1_ratio"]).astype(float)
    al = np.asarray(m.alphas_, float).reshape(len(l1s) if np.ndim(m.alphas_) == 2 else 1, -1)
    al = np.broadcast_to(al, (len(l1s), al.shape[1]))
    out = []
    S = splits(sc["est"]["cv"], n)
    tab = np.asarray(m.deviance_path_, float)
    bad = "" if tab.shape == (len(S), len(l1s), al.shape[1]) else f"deviance_path_ has shape {tab.shape}"
    bad = bad or ("" if np.shape(m.coef_path_) == tab.shape + (p,) else f"coef_path_ has shape {np.shape(m.coef_path_)}")
    if bad:
        return sc, bad
    ip = np.asarray(m.intercept_path_, float).reshape(tab.shape)
    for f, (tr, te) in enumerate(S):
        for i, l1 in enumerate(l1s):
            path = dict(alphas=al[i], bs=ip[f, i], ws=np.asarray(m.coef_path_[f, i], float), outcome="ok", conv=conv)
            out.append(dict(record(sc, tr, l1), kind="path", b=path["bs"][-1], w=path["ws"][-1], about=f"fold {f} l1 {l1} {about}", **path))
            out.append(dict(record(sc, te, l1), kind="dev", dev=tab[f, i], about=f"fold {f} l1 {l1} test {about}", **path))
            if rng.random() < 0.3:
                out.append(dict(record(sc, tr, l1), kind="dev", dev=np.asarray(m.train_deviance_path_[f, i], float),
                                about=f"fold {f} l1 {l1} train {about}", **path))
    if np.isfinite(tab).all():
        out.append(dict(kind="select", tab=tab, alphas=al, l1s=l1s, gl=float(m.l1_ratio_), ga=float(m.alpha_), about=about))
    allr = np.arange(n)
    fin = record(sc, allr, m.l1_ratio_)
    fin.update(kind="final", ak="given", alpha=float(m.alpha_), b=float(m.intercept_), w=np.asarray(m.coef_, float), outcome="ok",
               conv=conv, about="final " + about)
    out.append(fin)
    user = "alphas" in sc["est"]
    for i, l1 in enumerate(l1s):
        g = record(sc, allr, l1)
        if user:
            out.append(dict(kind="same", a=al[i], b=np.sort(np.asarray(sc["est"]["alphas"], float))[::-1], rtol=0, what="alphas", about=about))
        else:
            g.update(kind="grid", alphas=al[i], nal=sc["est"]["n_alphas"], mk="ratio", mv=sc["est"]["min_alpha_ratio"], gtol=1e-9,
                     exact=bool(paths.grid_exact(dict(sc, est={**sc["est"], "l1_ratio": l1}))), about=about)
            out.append(g)
    # the path behind predictions by alpha or index, read off with unit vectors
    i = int(np.argmin(np.abs(l1s - m.l1_ratio_)))
    E = np.r_[np.zeros((1, p)), np.diag(sc["X"].std(0) + 0.5)]
    with Quiet():
        lin = np.asarray(m.linear_predictor(E, alpha_index=list(range(al.shape[1]))), float)
    bs, ws = lin[0], ((lin[1:] - lin[0]) / np.diag(E[1:])[:, None]).T
    if np.isfinite(lin).all():
        r = record(sc, allr, m.l1_ratio_)
        r.update(kind="path", alphas=al[i], bs=bs, ws=ws, b=bs[-1], w=ws[-1], outcome="ok", conv=conv, about="refit path " + about, slack=1.01)
        if not sc["est"]["fit_intercept"]:
            r["bs"] = bs = 0 * bs
            r["b"] = 0.0
        # recovered coefficients are off by rounding: not exactly zero or on their bounds
        for w in ws:
            w[np.abs(w) < 1e-12 * (1 + np.abs(bs).max())] = 0.0
        lb, ub = sc["est"].get("lower_bounds"), sc["est"].get("upper_bounds")
        for b in (lb, ub):
            if b is not None:
                bb = np.broadcast_to(np.asarray(b, float), (p,))
                for w in ws:
                    near = np.abs(w - bb) < 1e-11 * (1 + np.abs(bs).max())
                    w[near] = bb[near]
        r["w"] = ws[-1]
        out.append(r)
        for _ in range(2):
            v = rng.integers(al.shape[1], size=int(rng.integers(1, 4)))
            seq = bool(rng.random() < 0.6)
            v = v if seq else v[:1]
            kw = {"alpha_index": [int(k) for k in v]} if rng.random() < 0.5 else {"alpha": [float(al[i][k]) for k in v]}
            kw = {k: x if seq else x[0] for k, x in kw.items()}
            a = paths.ask_line(rng, sc, m, bs, ws, v + 1, kw, seq)
            if a is not None:
                out.append(a)
        k = int(np.argmin(np.abs(al[i] - m.alpha_)))
        with Quiet():
            a = paths.ask_line(rng, sc, m, bs, ws, [k + 1], {}, False)
        if a is not None and len(set(al[i])) == al.shape[1]:
            out.append(a)
    # order of alphas, number of jobs, form of the splits
    t = rng.random()
    over = {}
    if user and t < 0.25:
        over = {"alphas": [float(v) for v in rng.permutation(np.asarray(sc["est"]["alphas"], float))]}
    elif t < 0.45:
        over = {"cv": [(list(a), np.asarray(b)) for a, b in S]}
    elif t < 0.5:
        over = {"n_jobs": 2}
    if over and sc["est"].get("selection") != "random":
        m2 = estimator(sc, **over)
        with Quiet(), np.errstate(all="ignore"):
            m2.fit(gen.to_format(sc["X"], sc["fmt"]), sc["y"], sample_weight=sc["s"], offset=sc["off"])
        flat = lambda mm: np.r_[float(mm.intercept_), np.asarray(mm.coef_, float), float(mm.alpha_), float(mm.l1_ratio_),
                                np.ravel(np.asarray(mm.deviance_path_, float))]
        a, b = flat(m), flat(m2)
        if np.isfinite(a).all() and np.isfinite(b).all():
            out.append(dict(kind="same", a=a, b=b, rtol=1e-13, what=str(list(over)), about=f"{over} {about}"))
    return sc, out


def validity():
    rng = np.random.default_rng(4)
    n = 24
    X = rng.normal(size=(n, 3))
    y = rng.poisson(np.exp(0.4 * X[:, 0])) + 1.0
    P, F = "allowed", "forbidden"
    C = glum.GeneralizedLinearRegressorCV
    out = []

    def fit(**k):
        k = {"family": "poisson", "cv": 2, "n_alphas": 3, **k}
        return lambda: C(**k).fit(X, y)

    for nm, kind, k in [
        ("defaults", P, {}), ("l1_ratio list", P, dict(l1_ratio=[0, 0.5])), ("alphas series", P, dict(alphas=pd.Series([0.1, 0.2]))),
        ("alphas array", P, dict(alphas=np.array([0.1, 0.2]))), ("negative alphas", F, dict(alphas=[0.1, -0.2])),
        ("l1_ratio above one", F, dict(l1_ratio=[0.5, 1.5])), ("negative l1_ratio", F, dict(l1_ratio=-0.5)),
        ("l1_ratio of strings", F, dict(l1_ratio=["a"])), ("cv of one fold", F, dict(cv=1)), ("more folds than rows", F, dict(cv=n + 1)),
        ("L1 with lbfgs", F, dict(l1_ratio=0.5, solver="lbfgs")), ("L1 with irls-ls", F, dict(l1_ratio=[0, 0.5], solver="irls-ls")),
        ("bounds with lbfgs", F, dict(lower_bounds=0.0, solver="lbfgs")), ("contradictory bounds", F, dict(lower_bounds=[1.0] * 3, upper_bounds=[0.0] * 3)),
        ("min_alpha too large", F, dict(min_alpha=1e9, l1_ratio=1.0)), ("indefinite P2", F, dict(P2=np.diag([1.0, -1, 1]))),
        ("P1 of another length", F, dict(P1=np.ones(2), l1_ratio=0.5)),
    ]:
        out.append(args.plain(kind, f"CV: {nm}", fit(**k)))
    m = C(family="poisson", cv=2, alphas=[0.1, 0.5], l1_ratio=0.5).fit(X, y)
    for call in ("predict", "linear_predictor"):
        g = getattr(m, call)
        for nm, kind, k in [("both", F, dict(alpha=0.1, alpha_index=0)), ("alpha off the path", F, dict(alpha=0.3)),
                            ("alpha", P, dict(alpha=0.5)), ("alphas", P, dict(alpha=[0.5, 0.1])), ("index", P, dict(alpha_index=1)),
                            ("index out of range", F, dict(alpha_index=2)), ("some alpha off the path", F, dict(alpha=[0.1, 0.2]))]:
            out.append(args.plain(kind, f"CV {call} {nm}", lambda: g(X, **k)))
    return out


def one_round(rng):
    m = 160 if TIER == "quick" else 800
    seeds = [int(rng.integers(1 << 40)) for _ in range(m)]
    lines, fits, conv = [], 0, 0
    for sd, r in zip(seeds, run_scenarios(job, seeds, timeout=300)):
        if isinstance(r, dict):
            ck.violation(f"cross-validation raised: {r['crash']}", {"seed": sd, "tb": r.get("tb")})
            continue
        sc, ls = r
        if isinstance(ls, str):
            if "No variation" in ls or "generate all zeros" in ls:
                continue
            ck.violation(f"cross-validation: {ls} [{fitrun.describe(sc)}]", {"seed": sd, "scenario": sc})
            continue
        fits += 1
        conv += ls[0]["conv"]
        lines += ls
    for r in lines:
        ck.count(r["kind"])
    ck.count("fits", fits)
    ck.count("converged", conv)
    if fits < 0.9 * m or conv < 0.75 * fits:
        ck.violation(f"{fits} fits, {conv} converged of {m}", {})
    for i, c in ck.trace("CVTrace", lines, "CVClauses"):
        ck.violation(f"{c[:500]} [{lines[i].get('about')}]", lines[i])
    with Quiet():
        args.check(ck, validity())


ck.rounds(one_round)
ck.finish()
