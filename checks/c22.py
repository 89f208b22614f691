"""C22: predictions are the inverse link of the linear predictor, row by row."""
import pickle

import numpy as np

import args
import fitrun
import gen
import preds
from vlib import TIER, Check, Quiet, run_scenarios, start

start()
import glum  # noqa: E402

ck = Check("C22")


def partition(seed):
    """any splitting and reordering of the rows, any container, any later state of the arrays gives the same answers"""
    rng = np.random.default_rng(seed)
    for _ in range(5):
        try:
            sc, m = preds.fitted(rng)
            break
        except Exception:
            continue
    else:
        return []
    p = sc["X"].shape[1]
    n = int(rng.integers(3, 9))
    pos = sc["link"].startswith("tweedie") and sc["link"] not in ("tweedie:0", "tweedie:1")
    X = sc["X"][rng.integers(len(sc["y"]), size=n)] + (0 if pos else 0.2) * rng.normal(size=(n, p))
    off = None if pos or rng.random() < 0.5 else rng.uniform(-0.5, 0.5, n)
    s = None if rng.random() < 0.5 else rng.uniform(0.5, 2, n)
    fmt = lambda: str(rng.choice(preds.FMTS))
    take = lambda v, ix: None if v is None else v[ix]
    out = []
    with Quiet(), np.errstate(all="ignore"):
        for call in ("predict", "linear_predictor"):
            def ask(ix):
                kw = {} if call != "predict" else dict(sample_weight=take(s, ix))
                return np.asarray(getattr(m, call)(gen.to_format(X[ix], fmt()), offset=take(off, ix), **kw), float).reshape(-1)
            whole = ask(np.arange(n))
            if not np.isfinite(whole).all() or np.abs(whole).max() > 1e200:
                continue
            perm = rng.permutation(n)
            cuts = np.sort(rng.integers(1, n, size=2))
            parts = [q for q in np.split(perm, cuts) if len(q)]
            out.append(dict(kind="rows", ix=(perm + 1).tolist(), all=whole, sub=np.concatenate([ask(q) for q in parts]),
                            rtol=1e-11, what=f"{call} in {len(parts)} parts {fitrun.describe(sc)}"))
        # answers do not alias the inputs or each other
        Xc = X.copy()
        oc = None if off is None else off.copy()
        a = m.predict(Xc, offset=oc)
        keep = np.array(a, float)
        Xc[:] = 7.0
        if oc is not None:
            oc[:] = 3.0
        b = m.predict(X, offset=off)
        b[:] = -1.0
        c = m.predict(X, offset=off)
        m2 = pickle.loads(pickle.dumps(m))
        out.append(dict(kind="same", a=a, b=keep, rtol=0.0, what="answer after the input was overwritten"))
        out.append(dict(kind="same", a=c, b=keep, rtol=0.0, what="answer after an earlier answer was overwritten"))
        out.append(dict(kind="same", a=m2.predict(X, offset=off), b=keep, rtol=0.0, what="answer of a pickled model"))
    return out


def path(seed):
    """selections on a path are the predictions of the selected parameters"""
    rng = np.random.default_rng(seed)
    f, lk = [("poisson", "auto"), ("normal", "auto"), ("binomial", "auto"), ("gamma", "log")][rng.integers(4)]
    sc = fitrun.problem(rng, combo=(f, lk), p=int(rng.integers(1, 4)), alpha=0.1, l1=0.5, solver="auto", bounds=False,
                        nuisance=False, size="small", fi=bool(rng.random() < 0.8), scale=False)
    sc["est"].pop("start_params", None)
    sc["est"]["P1"] = "identity"
    k = int(rng.integers(1, 5))
    alphas = np.sort(np.round(rng.uniform(0.001, 1, k), 4))[::-1]
    if len(set(alphas)) < k:
        return []
    fa, _ = gen.family(f)
    sc["est"]["alpha"] = None
    kw = {q: v for q, v in sc["est"].items() if q not in ("alpha", "P1", "P2")}
    m = glum.GeneralizedLinearRegressor(family=fa, link="auto" if lk == "auto" else lk, alphas=list(alphas),
                                        alpha_search=True, **kw)
    with Quiet(), np.errstate(all="ignore"):
        m.fit(sc["X"], sc["y"], sample_weight=sc["s"])
    n = int(rng.integers(1, 6))
    X = sc["X"][rng.integers(len(sc["y"]), size=n)]
    off = [None, 0.3, rng.uniform(-0.5, 0.5, n)][rng.integers(3)]
    s = [None, 2.0, rng.uniform(0.5, 2, n)][rng.integers(3)]
    _, lrec = gen.link(lk, f)
    out = []
    W = np.asarray(m.coef_path_, float)
    b = np.broadcast_to(np.asarray(m.intercept_path_, float), (len(W),))
    sel = rng.integers(-k, k, size=int(rng.integers(1, 4)))

    def add(i, lin, mu, wmu, what):
        i = int(i) % k
        out.append(dict(kind="pred", X=X, b=float(b[i]), w=W[i], link=lrec,
                        ok=fitrun.kind(off), off=fitrun.raw(off), sk=fitrun.kind(s), s=fitrun.raw(s),
                        clip=50 * 2.220446049250313e-16, rtol=1e-10, lin=lin, mu=mu,
                        wmu=[] if s is None else wmu, what=f"{what} of {k} {fitrun.describe(sc)}"))
    if len(W) != k:
        return [dict(kind="same", a=[float(len(W))], b=[float(k)], rtol=0.0, what="length of the path")]
    with Quiet(), np.errstate(all="ignore"):
        for by in ("index", "alpha"):
            idx = [int(i) % k for i in sel]
            for many in (True, False):
                arg = [int(i) for i in sel] if by == "index" else [float(alphas[i]) for i in idx]
                if not many:
                    arg = arg[0]
                kk = dict(alpha_index=arg) if by == "index" else dict(alpha=arg)
                lin = np.asarray(m.linear_predictor(X, offset=off, **kk), float)
                mu = np.asarray(m.predict(X, offset=off, **kk), float)
                wmu = np.asarray(m.predict(X, offset=off, sample_weight=s, **kk), float)
                if many:
                    want = (n, len(idx))
                    if lin.shape != want or mu.shape != want or wmu.shape != want:
                        out.append(dict(kind="same", a=[0.0], b=[1.0], rtol=0.0, what=f"shapes {lin.shape} {mu.shape} for {want}"))
                        continue
                    for c, i in enumerate(idx):
                        add(i, lin[:, c], mu[:, c], wmu[:, c], f"{by} {arg} column {c}")
                else:
                    add(idx[0], lin.reshape(-1), mu.reshape(-1), wmu.reshape(-1), f"{by} {arg}")
        last = np.asarray(m.predict(X), float)
        out.append(dict(kind="same", a=last, b=np.asarray(m.predict(X, alpha_index=k - 1), float), rtol=1e-13,
                        what="default selection of a path"))
    return out


def validity():
    rng = np.random.default_rng(3)
    X = rng.normal(size=(20, 3))
    y = np.exp(0.2 * X[:, 0]) + rng.random(20)
    out = []
    mk = lambda **kw: glum.GeneralizedLinearRegressor(family="poisson", alpha=0.1, **kw)
    m = mk().fit(X, y)
    m1 = mk(fit_intercept=False).fit(X, y)
    mp = glum.GeneralizedLinearRegressor(family="poisson", alpha_search=True, n_alphas=4, l1_ratio=0.5).fit(X, y)
    mcv = glum.GeneralizedLinearRegressorCV(family="poisson", n_alphas=4, l1_ratio=0.5, cv=2).fit(X, y)
    import pandas as pd
    df = pd.DataFrame(X, columns=list("abc"))
    mdf = mk().fit(df, y)
    for nm, mod in (("plain", m), ("no intercept", m1), ("path", mp), ("cv", mcv), ("frame", mdf)):
        for call in ("predict", "linear_predictor"):
            g = getattr(mod, call)
            for what, Z in (("right", X), ("one short", X[:, :2]), ("one long", np.c_[X, X[:, 0]]), ("none", X[:, :0]),
                            ("vector", X[0]), ("three-dimensional", X[None])):
                out.append(args.line("X", f"{call} {nm}: {what}", Z, 3, lambda: g(Z)))
            bad = X.copy()
            bad[1, 1] = np.nan
            out += args.offset_lines(20, lambda o: g(X, offset=o))
        out += args.weight_lines(20, lambda w: mod.predict(X, sample_weight=w))
    for nm, mod in (("reg", mk()), ("cv", glum.GeneralizedLinearRegressorCV())):
        for call in (lambda: mod.predict(X), lambda: mod.linear_predictor(X), lambda: mod.score(X, y),
                     lambda: mod.predict(df)):
            out.append(args.plain("forbidden", f"unfitted {nm}", call))
    for kw in (dict(alpha_index=0), dict(alpha=0.1), dict(alpha_index=[0])):
        out.append(args.plain("forbidden", f"selection without a path {kw}", lambda: m.predict(X, **kw)))
        out.append(args.plain("forbidden", f"selection without a path {kw}", lambda: m.linear_predictor(X, **kw)))
    given = [0.5, 0.1, 0.02, 0.01]
    mp = glum.GeneralizedLinearRegressor(family="poisson", alpha_search=True, alphas=given, l1_ratio=0.5).fit(X, y)
    a = given[1]
    for kw, ok in ((dict(alpha_index=0), 1), (dict(alpha_index=[0, 3]), 1), (dict(alpha=a), 1), (dict(alpha=[a]), 1),
                   (dict(alpha=a, alpha_index=1), 0)):
        for mod in (mp, mcv):
            if mod is mcv and "alpha" in kw:
                kw = dict(kw, alpha=float(np.ravel(mcv.alphas_)[1]))
            out.append(args.plain("allowed" if ok else "forbidden", f"selection {kw}", lambda: mod.predict(X, **kw)))
    return out


def one_round(rng):
    k = 1 if TIER == "quick" else 6
    preds.check(ck, rng, 500 * k)
    lines = []
    for fn, m in ((partition, 300 * k), (path, 200 * k)):
        seeds = [int(rng.integers(1 << 40)) for _ in range(m)]
        for sd, r in zip(seeds, run_scenarios(fn, seeds)):
            if isinstance(r, dict):
                ck.violation(f"{fn.__name__}: {r['crash']}", {"seed": sd, "tb": r.get("tb")})
            else:
                ck.count(fn.__name__, len(r))
                lines += r
    for i, c in ck.trace("PredTrace", lines, "PredClauses", label="partitions and paths"):
        ck.violation(f"{c} [{lines[i]['what']}]", lines[i])
    with Quiet():
        v = validity()
    args.check(ck, v)


ck.rounds(one_round)
ck.finish()
