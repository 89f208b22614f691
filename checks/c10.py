"""C10: every point of a regularization path is the solution at its alpha."""
import numpy as np
import pandas as pd

import args
import fitrun
import gen
import paths
from vlib import TIER, Check, Quiet, run_scenarios, start

start()
import glum  # noqa: E402

ck = Check("C10")
RANK = {1: 0.02, 2: 0.1, 3: 0.5, 4: 2.0}


def job(seed):
    rng = np.random.default_rng(seed)
    sc = paths.problem(rng)
    lines, m = paths.run(sc)
    if m is None:
        return sc, lines
    rec = lines[0]
    K = len(rec["alphas"])
    bs, ws = rec["bs"], rec["ws"]
    for _ in range(2):
        ix = [int(i) for i in rng.integers(K, size=int(rng.integers(1, 4)))]
        if rng.random() < 0.5:
            ix = ix[0]
        v = np.atleast_1d(ix)
        kw = {"alpha_index": ix if np.ndim(ix) == 0 else [ix, tuple(ix), np.array(ix)][rng.integers(3)]}
        if rng.random() < 0.5 and len(set(rec["alphas"])) == K:
            al = [float(rec["alphas"][i]) for i in v]
            kw = {"alpha": al[0] if np.ndim(ix) == 0 else [al, tuple(al), np.array(al)][rng.integers(3)]}
        lines.append(paths.ask_line(rng, sc, m, bs, ws, v + 1, kw, np.ndim(ix) > 0,
                                    fmt=str(rng.choice(["c", "f", "csr", "df", "tm-split"]))))
    return sc, [r for r in lines if r is not None]


def cv_job(seed):
    """the automatic alphas of a cross-validation"""
    rng = np.random.default_rng(seed)
    sc = paths.problem(rng, auto=True)
    e = {k: v for k, v in sc["est"].items() if k not in ("alpha", "alpha_search", "n_alphas")}
    l1s = e["l1_ratio"] if rng.random() < 0.5 else [e["l1_ratio"], 0.5]
    if np.ndim(l1s) and e["solver"] not in ("auto", "irls-cd"):
        e["solver"] = "auto"
    m = glum.GeneralizedLinearRegressorCV(family=gen.family(sc["fam"])[0], link=gen.link(sc["link"], sc["fam"])[0], cv=2,
                                          n_alphas=sc["est"]["n_alphas"], **{**e, "l1_ratio": l1s, "max_iter": 20})
    with Quiet(), np.errstate(all="ignore"):
        try:
            m.fit(gen.to_format(sc["X"], sc["fmt"]), sc["y"], sample_weight=sc["s"], offset=sc["off"])
        except Exception:  # what the folds may do to a problem is a matter of C11
            return sc, []
    out = []
    al = np.asarray(m.alphas_, float).reshape(np.size(l1s), -1) if np.ndim(l1s) else np.atleast_2d(np.asarray(m.alphas_, float))
    for l1, a in zip(np.atleast_1d(l1s), al):
        sc1 = dict(sc, est={**sc["est"], "l1_ratio": float(l1)})
        g = fitrun.base_record(dict(sc1, est={**sc1["est"], "alpha": None}))
        g.update(kind="grid", alphas=a, nal=sc["est"]["n_alphas"], mk=sc["mk"], mv=float(sc["mv"]), exact=bool(paths.grid_exact(sc1)),
                 gtol=1e-9, about="cross-validation " + fitrun.describe(sc1))
        out.append(g)
    return sc, out


def value(it, by, unit):
    if by == "index":
        return int(it)
    r, d = divmod(it, 10)
    return unit * RANK[r] * (1 + {0: 0.0, 1: 1e-12, 2: 2e-3}[d])


def replay(item):
    """carry out the fits of a model history, then every request made after them"""
    fits, asks, seed = item
    rng = np.random.default_rng(seed)
    sc = fitrun.problem(rng, combo=[("poisson", "auto"), ("normal", "auto"), ("gamma", "log")][rng.integers(3)], alpha=0.1, p=2, l1=0.5,
                        solver="irls-cd", bounds=False, nuisance=False, offkind="none", size="small")
    m = None
    warm = bool(rng.random() < 0.4)
    unit = float(rng.choice([1.0, 1.0, 1.0, 1e-8, 1e-10]))  # alphas are told apart by their ratio
    for f in fits:
        al = [RANK[r] * unit for r in f["path"]]
        sc["est"].update(alpha_search=f["search"], alpha=al if f["search"] else al[0], warm_start=warm)
        if m is None:
            m = fitrun.estimator(sc)
        else:
            m.set_params(**{k: sc["est"][k] for k in ("alpha", "alpha_search")})
        with Quiet(), np.errstate(all="ignore"):
            m.fit(sc["X"], sc["y"], sample_weight=sc["s"])
    if fits[-1]["search"]:
        bs, ws = np.asarray(m.intercept_path_, float), np.asarray(m.coef_path_, float)
        bs = bs * np.ones(len(ws))
    else:
        bs, ws = np.array([float(m.intercept_)]), np.asarray(m.coef_, float)[None, :]
    lines, forbidden = [], []
    # the path the model predicts is the path found by a fit of its own
    for a in asks:
        q, want = a["ask"], a["want"]
        if q["by"] == "both":
            v = [0] if q["seq"] else 0
            kw = {"alpha_index": v, "alpha": [RANK[1] * unit] if q["seq"] else RANK[1] * unit}
        elif q["by"] == "none":
            kw = {}
        else:
            v = [value(i, q["by"], unit) for i in q["items"]]
            kw = {("alpha_index" if q["by"] == "index" else "alpha"): v if q["seq"] else v[0]}
        if want == [0]:
            for call in ("predict", "linear_predictor"):
                forbidden.append(args.plain("forbidden", f"{call} {q} after {fits}", lambda: getattr(m, call)(sc["X"][:2], **kw)))
        else:
            r = paths.ask_line(rng, sc, m, bs, ws, want, kw, q["seq"])
            lines.append(r)
    return lines, forbidden


def validity():
    rng = np.random.default_rng(4)
    n = 24
    X = rng.normal(size=(n, 3))
    y = rng.poisson(np.exp(0.4 * X[:, 0])) + 0.0
    P, F = "allowed", "forbidden"
    R = glum.GeneralizedLinearRegressor
    out = []

    def fit(**k):
        k = {"family": "poisson", **k}
        return lambda: R(**k).fit(X, y)

    for nm, kind, k in [
        ("a list without alpha_search", F, dict(alpha=[0.1, 0.2])),
        ("an array without alpha_search", F, dict(alpha=np.array([0.1]))),
        ("a number with alpha_search", F, dict(alpha=0.1, alpha_search=True)),
        ("negative entry", F, dict(alpha=[0.1, -0.1], alpha_search=True)),
        ("negative number", F, dict(alpha=-0.1)),
        ("strings", F, dict(alpha=["a", "b"], alpha_search=True)),
        ("min_alpha above the start", F, dict(alpha_search=True, l1_ratio=1.0, min_alpha=1e6)),
        ("list", P, dict(alpha=[0.1, 0.2], alpha_search=True)),
        ("tuple", P, dict(alpha=(0.1, 0.2), alpha_search=True)),
        ("series", P, dict(alpha=pd.Series([0.1, 0.2]), alpha_search=True)),
        ("range of ints", P, dict(alpha=range(1, 3), alpha_search=True)),
        ("one", P, dict(alpha=[1], alpha_search=True)),
        ("automatic", P, dict(alpha_search=True, n_alphas=3)),
        ("automatic l1", P, dict(alpha_search=True, n_alphas=3, l1_ratio=1)),
        ("lbfgs with l1", F, dict(alpha_search=True, alpha=[0.1], l1_ratio=0.5, solver="lbfgs")),
        ("irls-ls with l1", F, dict(alpha_search=True, n_alphas=3, l1_ratio=0.5, solver="irls-ls")),
    ]:
        out.append(args.plain(kind, f"alpha: {nm}", fit(**k)))
    return out


def one_round(rng):
    m = 500 if TIER == "quick" else 2500
    lines = []
    fits = conv = 0
    for sd, r in zip(*(lambda s: (s, run_scenarios(job, s)))([int(rng.integers(1 << 40)) for _ in range(m)])):
        if isinstance(r, dict):
            ck.violation(f"a path raised: {r['crash']}", {"seed": sd, "tb": r.get("tb")})
            continue
        sc, ls = r
        if ls[0]["outcome"] != "ok":
            o = ls[0]["outcome"]
            _, f = gen.family(sc["fam"])
            _, lk = gen.link(sc["link"], sc["fam"])
            easy = (f["name"], lk["name"]) in fitrun.CONVEX and (min(sc["alphas"]) > 0 if not sc["auto"] else sc["mk"] == "min")
            if "generate all zeros" in o or not easy:
                continue  # a reported failure on a problem that need not be solvable
        fits += 1
        conv += ls[0]["conv"]
        lines += ls
    ck.count("paths", fits)
    ck.count("converged_paths", conv)
    ck.count("points", sum(len(r["ws"]) for r in lines if r["kind"] == "path"))
    ck.count("grids", sum(r["kind"] == "grid" for r in lines))
    ck.count("exact_grids", sum(r["kind"] == "grid" and r["exact"] for r in lines))
    if fits < 0.9 * m or conv < 0.75 * fits:
        ck.violation(f"{fits} fits, {conv} converged of {m}", {})
    for sd, r in zip(*(lambda s: (s, run_scenarios(cv_job, s)))([int(rng.integers(1 << 40)) for _ in range(m // 2)])):
        if isinstance(r, dict):
            ck.violation(f"a cross-validation raised: {r['crash']}", {"seed": sd, "tb": r.get("tb")})
            continue
        ck.count("cv_grids", len(r[1]))
        ck.count("exact_cv_grids", sum(g["exact"] for g in r[1]))
        lines += r[1]
    # requests enumerated by the model
    inv = "INVARIANTS InRangeLaw OneColumnEach SameSelection Emit\n"
    beh = []
    for k, f, n in ((2, 1, 2), (3, 1, 1), (2, 2, 1)) if TIER == "quick" else ((3, 1, 2), (2, 2, 2), (4 - 1, 2, 1)):
        beh += ck.generate("PathModel", f"SPECIFICATION Spec\nCONSTANTS K={k} Fits={f} Len2={n}\n{inv}", name=f"PathModel-{k}-{f}-{n}")
    groups = {}
    for h in beh:
        groups.setdefault(repr(h[:-1]), (h[:-1], []))[1].append(h[-1])
    items = [(f, a, int(rng.integers(1 << 40))) for f, a in groups.values()]
    forbidden = []
    for it, r in zip(items, run_scenarios(replay, items)):
        if isinstance(r, dict):
            ck.violation(f"a request raised: {r['crash']} after {it[0]}", {"fits": it[0], "tb": r.get("tb")})
        else:
            lines += r[0]
            forbidden += r[1]
    ck.count("requests", len(beh))
    for i, c in ck.trace("PathTrace", lines, "SearchClauses"):
        ck.violation(f"{c[:500]} [{lines[i].get('about')}]", lines[i])
    with Quiet():
        args.check(ck, forbidden + validity())


ck.rounds(one_round)
ck.finish()
