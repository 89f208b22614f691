"""C13: Wald tests equal the quadratic form of the stated hypothesis."""
import numpy as np
import pandas as pd

import args
from vlib import TIER, Check, Quiet, run_scenarios, start

start()
import glum  # noqa: E402

ck = Check("C13")
FAMS = [("normal", "auto"), ("poisson", "auto"), ("gamma", "log"), ("binomial", "auto"), ("tweedie", "auto")]


def model(rng):
    """a fitted model with names and terms known by construction"""
    n = int(rng.integers(40, 60))
    fam, link = FAMS[rng.integers(len(FAMS))]
    kind = str(rng.choice(["array", "df", "cat", "formula", "formulacat"]))
    fi = bool(rng.random() < 0.7)
    df = pd.DataFrame({"x1": rng.normal(size=n), "x2": 2 * rng.normal(size=n), "x3": rng.normal(size=n) + 0.5})
    df["g"] = pd.Categorical(rng.permutation(np.resize(["u", "v", "w"], n)))
    df["h"] = pd.Categorical(rng.permutation(np.resize(["p", "q"], n)))
    lin = 0.3 * df["x1"] - 0.1 * df["x2"] + 0.4 * (df["g"] == "v") + 0.2
    lin = lin.to_numpy()
    y = {"normal": lin + rng.normal(size=n), "poisson": rng.poisson(np.exp(lin)) + 0.2, "gamma": rng.gamma(4, np.exp(lin) / 4) + 0.02,
         "binomial": np.clip(1 / (1 + np.exp(-lin)) + 0.2 * rng.normal(size=n), 0.05, 0.95),
         "tweedie": rng.gamma(2, np.exp(lin) / 2) * (rng.random(n) < 0.8)}[fam]
    alpha = 0 if rng.random() < 0.7 else 0.01
    kw = dict(family=fam, link=link, alpha=alpha, fit_intercept=fi, gradient_tol=1e-8)
    s = None if rng.random() < 0.5 else rng.uniform(0.5, 2, n)
    data = df
    if kind == "array":
        data = df[["x1", "x2", "x3"]].to_numpy()
        terms = None
    elif kind == "df":
        cols = list(rng.permutation(["x1", "x2", "x3"]))
        data = df[cols]
        terms = [str(c) for c in cols]
    elif kind == "cat":
        cols = [str(c) for c in rng.permutation(["x1", "x2", "g", "h"])]
        data = df[cols]
        kw["drop_first"] = True
        terms = []
        for c in cols:
            terms += [c] * ({"g": 2, "h": 1}.get(c, 1))
    elif kind == "formula":
        f = str(rng.choice(["x1 + x2", "x2 + x3 + x1:x2", "x1*x2", "x3 + x1"]))
        kw["formula"] = f
        terms = None
    else:
        kw["formula"] = str(rng.choice(["x1 + g", "g + x2 + h", "x1*h", "x1 + g:h", "g + h:x1"]))
        kw["drop_first"] = True
        terms = None
    how = str(rng.choice(["plain", "path", "cv"], p=[0.7, 0.15, 0.15]))
    if how == "path":
        kw.update(alpha=[alpha + 0.2, alpha], alpha_search=True)
    elif how == "cv":
        kw.pop("alpha")
        kw.update(alphas=[alpha, alpha + 0.01], cv=3)
    m = (glum.GeneralizedLinearRegressorCV if how == "cv" else glum.GeneralizedLinearRegressor)(**kw)
    with Quiet():
        m.fit(data, y, sample_weight=s)
    names = [str(x) for x in m.feature_names_]
    if terms is None:
        import re
        if kind == "array":
            terms = list(names)
        else:
            terms = [re.sub(r"\[[^\]]*\]", "", x) for x in names]
            # columns added to an interaction to span its space belong to the interaction
            if kw["formula"] == "x1 + g:h":
                terms = [t if t == "x1" else "g:h" for t in terms]
            if kw["formula"] == "g + h:x1":
                terms = [t if t == "g" else "h:x1" for t in terms]
    V = None
    return dict(m=m, data=data, y=y, s=s, names=(["intercept"] if fi else []) + names, terms=(["intercept"] if fi else []) + terms,
                beta=np.append([m.intercept_] if fi else [], m.coef_), kind=how + " " + kind + " " + str(kw.get("formula", "")), V=V)


def quote(nm):
    return nm if nm.replace("_", "a").isalnum() else f"`{nm}`"


def side(rng, names, k, const):
    """-> text, [(c, n)], constant"""
    lc, parts = [], []
    for i, nm in enumerate(rng.choice(names, size=k, replace=False)):
        c = float(rng.choice([1, 1, 2, 0.5, 3]))
        sg = "+" if i == 0 or rng.random() < 0.6 else "-"
        t = quote(str(nm)) if c == 1 and rng.random() < 0.7 else f"{c:g}*{quote(str(nm))}" if rng.random() < 0.8 else f"{quote(str(nm))}*{c:g}"
        parts.append((" " + sg + " " if i else "") + t)
        lc.append(dict(c=c if sg == "+" else -c, n=str(nm)))
    lk = 0.0
    txt = "".join(parts)
    if const and rng.random() < 0.4:
        lk = float(rng.choice([1, 2, 0.25]))
        txt += f" + {lk:g}"
    return txt, lc, lk


def hypothesis(rng, M):
    names, terms = M["names"], M["terms"]
    k = len(names)
    hk = str(rng.choice(["R", "features", "terms", "formula", "formula"]))
    out = dict(hk=hk, R=[], sel=[], eqs=[], rk="none", r=[])
    kw = {}
    if hk == "R":
        q = int(rng.integers(1, min(3, k) + 1))
        R = np.round(rng.normal(size=(q, k)), 2) * (rng.random((q, k)) < 0.7)
        R[np.arange(q), rng.permutation(k)[:q]] += 1.5
        if np.linalg.cond(R @ R.T) > 50:
            return None
        out["R"] = R
        kw["R"] = R.astype(int) if rng.random() < 0.1 and np.linalg.matrix_rank(R.astype(int)) == q else R
        out["R"] = np.asarray(kw["R"], float)
        if rng.random() < 0.6:
            r = np.round(rng.normal(size=q), 2)
            out.update(rk="given", r=r)
            kw["r"] = [r, r.tolist(), tuple(r)][rng.integers(3)]
    elif hk in ("features", "terms"):
        pool = list(dict.fromkeys(names if hk == "features" else terms))
        sel = [str(x) for x in rng.choice(pool, size=int(rng.integers(1, min(3, len(pool)) + 1)), replace=False)]
        out["sel"] = sel
        kw[hk] = sel[0] if len(sel) == 1 and rng.random() < 0.5 else sel
        if rng.random() < 0.6:
            r = np.round(rng.normal(size=len(sel)), 2)
            if rng.random() < 0.3:
                r = np.round(r)
            out.update(rk="given", r=r)
            kw["r"] = [r, r.tolist(), tuple(r)][rng.integers(3)]
    else:
        q = int(rng.integers(1, min(2, k) + 1))
        txts, eqs = [], []
        for _ in range(q):
            lt, lc, lk = side(rng, names, int(rng.integers(1, min(3, k) + 1)), True)
            v = rng.integers(4)
            if v == 0:
                txts.append(lt)
                eqs.append(dict(lc=lc, lk=lk, rc=[], rk=0.0))
            elif v == 1 and k > 1:
                rt, rc, rk = side(rng, names, 1, True)
                txts.append(f"{lt} = {rt}")
                eqs.append(dict(lc=lc, lk=lk, rc=rc, rk=rk))
            else:
                rk = float(rng.choice([0, 1, 0.5, 2]))
                txts.append(f"{lt} = {rk:g}" if rng.random() < 0.7 else f"{lt}={rk:g}")
                eqs.append(dict(lc=lc, lk=lk, rc=[], rk=rk))
        ix = {nm: i for i, nm in enumerate(names)}
        R = np.zeros((q, k))
        for a, e in enumerate(eqs):
            for t in e["lc"]:
                R[a, ix[t["n"]]] += t["c"]
            for t in e["rc"]:
                R[a, ix[t["n"]]] -= t["c"]
        if np.linalg.matrix_rank(R) < q or np.linalg.cond(R @ R.T) > 100:
            return None
        kw["formula"] = ", ".join(txts)
        out["eqs"] = eqs
    return out, kw


def job(seed):
    rng = np.random.default_rng(seed)
    M = model(rng)
    m = M["m"]
    out = []
    n = len(M["y"])
    for _ in range(8):
        h = hypothesis(rng, M)
        if h is None:
            continue
        h, kw = h
        q = {}
        if rng.random() < 0.5:
            q["robust"] = bool(rng.random() < 0.5)
        if rng.random() < 0.3:
            q["clusters"] = np.arange(n) % int(rng.integers(3, 9))
        if rng.random() < 0.3:
            q["expected_information"] = True
        if rng.random() < 0.3:
            q["dispersion"] = 2.5
        if rng.random() < 0.2:
            q["offset"] = np.full(n, 0.1)
        if rng.random() < 0.2:
            with Quiet():
                q["mu"] = np.asarray(m.predict(M["data"])) * 0.99
        with Quiet(), np.errstate(all="ignore"):
            stored = rng.random() < 0.3
            a = (M["data"], M["y"], M["s"])
            V = np.asarray(m.covariance_matrix(*a, **q), float)
            if not np.isfinite(V).all() or np.linalg.eigvalsh(V / np.sqrt(np.outer(np.diag(V), np.diag(V)))).min() < 1e-5:
                continue
            if stored:
                m.covariance_matrix(*a, **q, store_covariance_matrix=True)
                t = m.wald_test(**kw)
            else:
                t = m.wald_test(*a, **kw, **q)
        h.update(names=M["names"], terms=M["terms"], beta=M["beta"], V=V, stat=float(np.ravel(t.test_statistic)[0]),
                 p=float(np.ravel(t.p_value)[0]), df=int(t.df), rtol=1e-10,
                 what=f"{M['kind']} {kw} {sorted(q)} {'stored' if stored else ''}")
        if np.size(t.test_statistic) != 1 or np.size(t.p_value) != 1:
            h["df"] = -1
        out.append(h)
    return out


def validity():
    rng = np.random.default_rng(6)
    X = pd.DataFrame(rng.normal(size=(40, 3)), columns=["a", "b", "c"])
    y = rng.normal(size=40) + X["a"].to_numpy()
    m = glum.GeneralizedLinearRegressor(alpha=0).fit(X, y, store_covariance_matrix=True)
    m0 = glum.GeneralizedLinearRegressor(alpha=0, fit_intercept=False).fit(X, y, store_covariance_matrix=True)
    P, F = "allowed", "forbidden"
    out = []
    E = np.eye(4)
    for nm, kw, ok in [
        ("nothing", {}, 0), ("two", dict(R=E[1:2], features="a"), 0), ("two more", dict(terms="a", formula="a=0"), 0),
        ("r alone", dict(r=[1.0]), 0), ("formula and r", dict(formula="a=1", r=[1.0]), 0),
        ("unknown feature", dict(features="z"), 0), ("unknown among", dict(features=["a", "z"]), 0),
        ("unknown term", dict(terms="z"), 0), ("unknown term among", dict(terms=["a", "z"]), 0),
        ("unknown name in formula", dict(formula="z = 0"), 0), ("unreadable formula", dict(formula="a = = 1"), 0),
        ("too few columns", dict(R=E[1:2, :3]), 0), ("too many columns", dict(R=np.ones((1, 5))), 0),
        ("long r", dict(R=E[1:2], r=[1.0, 2.0]), 0), ("short r", dict(R=E[1:3], r=[1.0]), 0),
        ("long values", dict(features=["a"], r=[1.0, 2.0]), 0), ("short values", dict(features=["a", "b"], r=[1.0]), 0),
        ("long values", dict(terms=["a"], r=[1.0, 2.0]), 0), ("short values", dict(terms=["a", "b"], r=[1.0]), 0),
        ("R", dict(R=E[1:3]), 1), ("intercept", dict(features="intercept"), 1), ("intercept", dict(terms="intercept"), 1),
        ("intercept", dict(formula="intercept = 1"), 1), ("all", dict(R=E), 1), ("all", dict(features=["a", "b", "c"], r=[1, 2, 3]), 1),
    ]:
        out.append(args.plain(P if ok else F, f"wald_test {nm} {sorted(kw)}", lambda: m.wald_test(**kw)))
    for kw in (dict(features="intercept"), dict(terms="intercept"), dict(formula="intercept = 0"), dict(R=E[1:2])):
        out.append(args.plain(F, f"no intercept {sorted(kw)}", lambda: m0.wald_test(**kw)))
    return out


def one_round(rng):
    m = 240 if TIER == "quick" else 1500
    seeds = [int(rng.integers(1 << 40)) for _ in range(m)]
    lines = []
    for sd, r in zip(seeds, run_scenarios(job, seeds)):
        if isinstance(r, dict):
            ck.violation(f"a test raised: {r['crash']}", {"seed": sd, "tb": r.get("tb")})
        else:
            lines += r
    if len(lines) < 3 * m:
        ck.violation(f"only {len(lines)} tests of {m} models", {})
    for r in lines:
        ck.count(r["hk"])
    for i, c in ck.trace("WaldTrace", lines, "WaldClauses"):
        ck.violation(f"{c[:500]} [{lines[i]['what']}]", lines[i])
    with Quiet():
        args.check(ck, validity())


ck.rounds(one_round)
ck.finish()
