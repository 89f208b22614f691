"""Lives of estimator objects for LifeTrace: parameter settings, data sets, operations, observations."""
import copy
import pickle

import numpy as np
import pandas as pd
import scipy.sparse as sps

from vlib import Quiet

# ------------------------------------------------------------------ parameter settings
# name -> (what data it is meant for, parameters); factories so that nothing is shared by accident
ARR = {
    "plain": dict(family="poisson", alpha=0),
    "enet": dict(family="poisson", alpha=0.05, l1_ratio=0.5),
    "path": dict(family="poisson", alpha_search=True, alpha=[0.5, 0.1, 0.02], l1_ratio=0.5),
    "autopath": dict(family="normal", alpha_search=True, n_alphas=3, min_alpha_ratio=0.01, l1_ratio=1.0),
    "noint": dict(family="normal", alpha=0, fit_intercept=False),
    "scaled": dict(family="gamma", link="log", alpha=0.1, scale_predictors=True),
    "bounds": dict(family="poisson", alpha=0.05, lower_bounds=0.0),
    "ineq": dict(family="poisson", alpha=0.1, A_ineq=np.array([[1.0, 1.0, 0.0]]), b_ineq=np.array([0.05])),
    "penalties": dict(family="poisson", alpha=0.1, l1_ratio=0.3, P1=np.array([1.0, 0.5, 0.0]),
                      P2=sps.csc_matrix(np.diag([1.0, 0.2, 0.7]))),
    "plaincov": dict(family="gamma", link="log", alpha=0, robust=False, expected_information=True),
    "start": dict(family="poisson", alpha=0.01, start_params=np.array([0.3, 0.0, 0.1, 0.0])),
    "random": dict(family="poisson", alpha=0.03, l1_ratio=1, selection="random", random_state=3),
    "tweedie": dict(family="TW", alpha=0.02, solver="lbfgs"),
    "negbin": dict(family="NB", alpha=0.02),
    "binomial": dict(family="binomial", alpha=0.1),
    "normal": dict(family="normal", alpha=0.1, l1_ratio=0.2),
}
DF = {
    "frame": dict(family="poisson", alpha=0.1),
    "dropped": dict(family="poisson", alpha=0, drop_first=True),
    "format": dict(family="gamma", link="log", alpha=0.1, categorical_format="{name}__{category}", l1_ratio=0.1),
    "convert": dict(family="poisson", alpha=0.1, cat_missing_method="convert", cat_missing_name="(NA)"),
    "zero": dict(family="poisson", alpha=0.1, cat_missing_method="zero"),
    "penalised": dict(family="poisson", alpha=0.1, l1_ratio=0.5, P1=[1.0, 0.5, 2.0], drop_first=True),
    "format-dropped": dict(family="gamma", link="log", alpha=0, categorical_format="{name}__{category}", drop_first=True),
    "two-sided": dict(family="poisson", alpha=0, formula="y ~ x + c", drop_first=True),
    "one-sided": dict(family="normal", alpha=0.1, formula="x + z + x:z"),
    "stateful": dict(family="normal", alpha=0.05, formula="center(x) + bs(z, df=4) + c", cat_missing_method="zero"),
    "monotone": dict(family="poisson", alpha=0.1, formula="x + c", monotonic_constraints={"x": "decreasing"}),
    "noint-formula": dict(family="normal", alpha=0.05, formula="x + z - 1", fit_intercept=False),
}
CV = {
    "cv": dict(family="poisson", n_alphas=3, l1_ratio=0.5, cv=2, min_alpha_ratio=0.05),
    "cv-ratios": dict(family="normal", n_alphas=2, l1_ratio=[0.3, 1.0], cv=2, min_alpha_ratio=0.1),
    "cv-alphas": dict(family="gamma", link="log", alphas=[0.3, 0.05], l1_ratio=0, cv=3),
    "cv-noint": dict(family="normal", alphas=[0.3, 0.05], l1_ratio=0.5, cv=2, fit_intercept=False),
    "cv-scaled": dict(family="poisson", alphas=[0.3, 0.05], l1_ratio=0.5, cv=2, scale_predictors=True),
}
CVDF = {
    "cv-frame": dict(family="poisson", alphas=[0.2, 0.02], l1_ratio=0.5, cv=2),
    "cv-dropped": dict(family="poisson", alphas=[0.2, 0.02], l1_ratio=0.5, cv=2, drop_first=True),
    "cv-formula": dict(family="poisson", alphas=[0.2, 0.02], l1_ratio=0, cv=2, formula="y ~ x + c", drop_first=True),
}


# all levels of a categorical and an intercept: the information is singular, inference is rounding noise
def collinear(pname, dname):
    p = {**ARR, **DF, **CV, **CVDF}[pname]
    return (dname[:2] in ("df", "pl") and dname != "dfnum" and not p.get("drop_first", False)
            and "c" in (p.get("formula") or "c").replace("center", "").replace("bs(", ""))


INFERENCE = {"std_errors", "covariance_matrix", "cov-plain", "cov-clustered", "coef_table", "wald", "wald-terms", "wald-formula",
             "std_errors-kept", "table-kept", "wald-kept", "cov-kept"}


def params(cls, name):
    import glum

    kw = {k: copy.deepcopy(v) for k, v in {**ARR, **DF, **CV, **CVDF}[name].items()}
    if kw.get("family") == "TW":
        kw["family"] = glum.TweedieDistribution(1.5)
    if kw.get("family") == "NB":
        kw["family"] = glum.NegativeBinomialDistribution(0.7)
    full = cls().get_params()
    full.update(kw)
    return full


# ------------------------------------------------------------------ data sets
def data(name, seed):
    rng = np.random.default_rng(seed)
    n = int(rng.integers(24, 34))
    D = dict(name=name, s=None, off=None, clusters=None)
    X = np.round(rng.normal(size=(n, 3)), 3)
    y = np.round(np.exp(0.4 * X[:, 0] - 0.3 * X[:, 1]) * rng.gamma(4, 0.25, n) + 0.05, 4)
    if name == "two":
        X = X[:, :2]
    if name in ("weighted", "dfweighted"):
        D["s"] = np.round(rng.uniform(0.5, 2, n), 3)
        D["off"] = np.round(rng.uniform(-0.3, 0.3, n), 3)
    if name == "unit":
        y = np.clip(np.round(y / (y.max() * 1.01), 4), 0.01, 0.99)
    if name.startswith("df") or name.startswith("pl"):
        lev = {"dfabc": "abc", "dfba": "ba", "dfwide": "dcba", "dfmiss": "abc", "plabc": "abc", "plca": "ca",
               "dfweighted": "abc", "dfnum": ""}[name]
        d = dict(x=X[:, 0], z=X[:, 1])
        if lev:
            c = rng.choice(list(lev), n).astype(object)
            c[: len(lev)] = list(lev)
            if name == "dfmiss":
                c[rng.choice(np.arange(5, n), 4, replace=False)] = None
            y = np.round(y * np.array([1.0 if v is None else 1.0 + 0.3 * "abcd".index(v) for v in c]), 4)
        if name.startswith("pl"):
            import polars as pl

            D["X"] = pl.DataFrame({"x": d["x"], "c": pl.Series(c.tolist(), dtype=pl.Enum(list(lev))), "z": d["z"]})
        else:
            D["X"] = pd.DataFrame({"x": d["x"], "c": pd.Categorical(c, categories=list(lev)), "z": d["z"]} if lev else d)
    else:
        D["X"] = {"csc": lambda: sps.csc_matrix(X * (np.abs(X) > 0.5)), "f32": lambda: X.astype(np.float32),
                  "f": lambda: np.asfortranarray(X)}.get(name, lambda: X)()
    D["y"] = y
    return D


ARRDATA = ["c", "f", "csc", "f32", "weighted", "two", "unit", "csc"]
DFDATA = ["dfabc", "dfba", "dfwide", "dfmiss", "plabc", "plca", "dfweighted", "dfnum"]


def fresh_copy(D):
    X = D["X"]
    X = X.clone() if type(X).__module__.startswith("polars") else X.copy()
    return {**D, "X": X, "y": D["y"].copy(), "s": None if D["s"] is None else D["s"].copy(),
            "off": None if D["off"] is None else D["off"].copy()}


def xy(D, m):
    """the data as this estimator's formula wants it"""
    f = getattr(m, "formula", None)
    if isinstance(f, str) and "~" in f and hasattr(D["X"], "columns"):
        X = D["X"]
        if type(X).__module__.startswith("polars"):
            import polars as pl

            return X.with_columns(pl.Series("y", D["y"])), None
        return X.assign(y=D["y"]), None
    return D["X"], D["y"]


# ------------------------------------------------------------------ observations
def flat(v):
    out = []
    if v is None:
        return out
    if isinstance(v, (list, tuple)):
        for e in v:
            out += flat(e)
        return out
    if isinstance(v, pd.DataFrame):
        v = v.to_numpy()
    return [float(t) for t in np.asarray(v, float).ravel()]


def observe(f):
    """call f; numbers and everything else that is visible"""
    with Quiet() as q, np.errstate(all="ignore"):
        try:
            r = f()
            tag, v = ("ok", r) if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str)) else r
        except Exception as e:
            tag, v = f"{type(e).__name__}: {str(e)[:60]}", None
    w = sorted({f"{a}:{b[:40]}" for a, b in zip(q.names, q.messages) if a in ("UserWarning", "ConvergenceWarning")
                # about keeping the covariance, not about what is compared
                and not b.startswith("Covariance matrix estimation")})
    try:
        v = flat(v)
    except Exception as e:
        tag, v = tag + f" [not numbers: {type(e).__name__}]", []
    return dict(tag=tag + (" " + "; ".join(w) if w else ""), v=v, plain=tag)


def attributes(m):
    names = []
    num = []
    for a in ("feature_names_", "term_names_", "n_features_in_", "categorical_levels_"):
        try:
            names.append(f"{a}={getattr(m, a)}")
        except AttributeError:
            names.append(f"{a} absent")
    for a in ("intercept_", "coef_", "n_iter_", "col_means_", "col_stds_", "coef_path_", "intercept_path_", "alpha_", "l1_ratio_",
              "alphas_", "deviance_path_", "train_deviance_path_"):
        v = getattr(m, a, "absent")
        if isinstance(v, str) or v is None:
            names.append(f"{a} {v}")
        else:
            num.append(np.asarray(v, float))
    names.append(type(m.family_instance).__name__ + "/" + type(m.link_instance).__name__)
    return "fitted " + " ".join(names), num


def fit(m, D, store):
    X, y = xy(D, m)

    def go():
        m.fit(X, y, sample_weight=D["s"], offset=D["off"], store_covariance_matrix=store)
        return attributes(m)

    o = observe(go)
    o["state"] = o.pop("plain")  # the same without the warnings of this fit
    return o


def q_data(call):
    def f(m, D):
        X, y = xy(D, m)
        return getattr(m, call)(X, y, sample_weight=D["s"], offset=D["off"])
    return f


def rowsof(D, k):
    X = D["X"]
    return X[:k] if not hasattr(X, "iloc") else X.iloc[:k]


def crit(call):
    def f(m, D):
        X, y = xy(D, m)
        return getattr(m, call)(X, D["y"])
    return f


def table(m, *a, **k):
    t = m.coef_table(*a, **k)
    return "ok " + str(list(t.index)) + str(list(t.columns)), t.to_numpy(dtype=float)


def wald(m, **k):
    r = m.wald_test(**k)
    return [r.test_statistic, r.p_value, r.df]


def first_feature(m):
    return m.feature_names_[0]


QUERIES = {
    "predict": lambda m, D: m.predict(xy(D, m)[0]),
    "predict-rows": lambda m, D: m.predict(rowsof({**D, "X": xy(D, m)[0]}, 3), sample_weight=2.0),
    "linear_predictor": lambda m, D: m.linear_predictor(xy(D, m)[0], offset=D["off"]),
    "predict-index": lambda m, D: m.predict(xy(D, m)[0], alpha_index=[0, 1]),
    "predict-alpha": lambda m, D: m.predict(xy(D, m)[0], alpha=0.1),
    "score": q_data("score"),
    "aic": crit("aic"), "bic": crit("bic"), "aicc": crit("aicc"),
    "std_errors": q_data("std_errors"),
    "covariance_matrix": q_data("covariance_matrix"),
    "cov-plain": lambda m, D: m.covariance_matrix(*xy(D, m), sample_weight=D["s"], offset=D["off"], robust=False),
    "cov-clustered": lambda m, D: m.covariance_matrix(*xy(D, m), clusters=np.arange(len(D["y"])) % 5),
    "coef_table": lambda m, D: table(m, *xy(D, m), sample_weight=D["s"], offset=D["off"]),
    "wald": lambda m, D: wald(m, X=xy(D, m)[0], y=xy(D, m)[1], features=[first_feature(m)]),
    "wald-terms": lambda m, D: wald(m, X=xy(D, m)[0], y=xy(D, m)[1], terms=[m.term_names_[-1]]),
    "wald-formula": lambda m, D: wald(m, X=xy(D, m)[0], y=xy(D, m)[1], R=np.eye(len(m.coef_) + m.fit_intercept)[-1:]),
    "std_errors-kept": lambda m, D: m.std_errors(),
    "table-kept": lambda m, D: table(m),
    "wald-kept": lambda m, D: wald(m, features=[first_feature(m)]),
    "cov-kept": lambda m, D: m.covariance_matrix(),
    "diagnostics": lambda m, D: (lambda d: ("ok text " + d, []) if isinstance(d, str) else
                                 ("ok " + str(list(d.columns)), d[["convergence", "n_cycles", "intercept"]].to_numpy(float)))(
        m.get_formatted_diagnostics()),
}


def storecov(m, D, kind):
    X, y = xy(D, m)
    return observe(lambda: m.covariance_matrix(X, y, sample_weight=D["s"], offset=D["off"],
                                               robust=None if kind == "own" else False, store_covariance_matrix=True))


def estimates(m):
    return flat([m.intercept_, m.coef_]) if hasattr(m, "coef_") else []


BADS = ["nan-X", "short-y", "bad-y", "bad-weights", "bad-offset", "bad-alpha", "bad-solver", "bad-bounds", "no-y"]


def bad(m, D, kind):
    """a fit that has to be rejected; the parameters are as before afterwards"""
    X, y = D["X"], D["y"].copy()
    s, off = D["s"], D["off"]
    n = len(y)
    pars = {}
    if kind == "nan-X":
        Z = np.random.default_rng(0).normal(size=(n, 3))
        Z[2, 1] = np.nan
        X = Z
        pars = dict(formula=None, monotonic_constraints=None)
    elif kind == "short-y":
        y = y[:-1]
        pars = dict(formula=None, monotonic_constraints=None)
    elif kind == "bad-y":
        y[3] = np.nan
        pars = dict(formula=None, monotonic_constraints=None)
    elif kind == "bad-weights":
        s = np.full(n, 1.0)
        s[0] = -1.0
    elif kind == "bad-offset":
        off = np.zeros(n + 1)
    elif kind == "bad-alpha":
        pars = dict(alpha=-1.0, alpha_search=False) if "alpha" in m.get_params() else dict(alphas=[-1.0])
    elif kind == "bad-solver":
        pars = dict(solver="simplex")
    elif kind == "bad-bounds":
        pars = dict(lower_bounds=1.0, upper_bounds=0.0, A_ineq=None, b_ineq=None, monotonic_constraints=None)
    elif kind == "no-y":
        y = None
        pars = dict(formula=None, monotonic_constraints=None)
    keep = {k: v for k, v in m.get_params(deep=False).items() if k in pars}
    before = estimates(m)
    m.set_params(**pars)
    f = m.get_params(deep=False).get("formula")
    if isinstance(f, str) and "~" in f:
        X, y = xy({**D, "X": X}, m)

    def go():
        m.fit(X, y, sample_weight=s, offset=off)
        return "ok", []

    o = observe(go)
    o["tag"] = "ok" if o["tag"].startswith("ok") else "rejected"
    o["v"] = estimates(m)
    m.set_params(**keep)
    return dict(before=before, obs=o)


def probe(m, D, rng):
    """calls with invalid arguments"""
    X, y = xy(D, m)
    Z = np.zeros((4, 9))
    for f in [lambda: m.predict(Z), lambda: m.linear_predictor(X, offset=np.zeros(2)), lambda: m.score(X, np.zeros(2)),
              lambda: m.wald_test(X=X, y=y, features=["nope"]), lambda: m.covariance_matrix(X),
              lambda: m.predict(X, alpha=0.1, alpha_index=0), lambda: m.aic(Z, np.zeros(4)),
              lambda: m.std_errors(X, y, sample_weight=np.full(len(D["y"]), -1.0)),
              lambda: m.covariance_matrix(Z, np.ones(4), store_covariance_matrix=True)]:
        observe(f)


def scribble(m, D, fitdata):
    """overwrite what was returned and what was passed in"""
    X, y = xy(D, m)
    for f in [lambda: m.predict(X), lambda: m.linear_predictor(X), lambda: m.covariance_matrix(X, y),
              lambda: m.std_errors(X, y)]:
        with Quiet(), np.errstate(all="ignore"):
            try:
                r = f()
                if isinstance(r, np.ndarray) and r.flags.writeable:
                    r[...] = -7.0
            except Exception:
                pass
    for k in ("y", "s", "off"):
        if isinstance(fitdata.get(k), np.ndarray):
            fitdata[k][...] = 3.0
    X = fitdata["X"]
    if isinstance(X, np.ndarray):
        X[...] = 5.0
    elif sps.issparse(X):
        X.data[...] = 5.0
    elif isinstance(X, pd.DataFrame):
        X["x"] = 5.0


def live(job):
    """carry out one history; returns the trace line"""
    import sklearn.base as skb

    import glum

    hist, seed = job
    rng = np.random.default_rng(seed)
    ch = lambda seq: seq[int(rng.integers(len(seq)))]
    iscv = rng.random() < 0.25
    frame = rng.random() < 0.5
    cls = glum.GeneralizedLinearRegressorCV if iscv else glum.GeneralizedLinearRegressor
    pool = sorted(CVDF if frame else CV) if iscv else sorted(DF if frame else ARR)
    other = sorted({**CV, **CVDF}) if iscv else sorted({**DF, **ARR})
    pname = {"p1": ch(pool), "p2": ch(pool) if rng.random() < 0.8 else ch(other)}
    dpool = DFDATA if frame else ARRDATA
    dname = {"d1": ch(dpool), "d2": ch(dpool) if rng.random() < 0.85 else ch(DFDATA + ARRDATA)}
    D = {k: data(v, int(rng.integers(1 << 40))) for k, v in dname.items()}
    m = cls(**params(cls, pname["p1"]))
    ops = []
    need = set()
    st = dict(par="p1", fpar=None, fdata=None, cov="none", ok=False)
    held = []

    def do_query(q):
        if not hasattr(m, "coef_"):
            return
        if q in INFERENCE and st["fpar"] and collinear(pname[st["fpar"]], dname[st["fdata"]]):
            return
        Dq = fresh_copy(D[st["fdata"]]) if st["fdata"] else fresh_copy(D["d1"])
        obs = observe(lambda: QUERIES[q](m, Dq))
        if st["ok"] and st["par"] == st["fpar"]:
            need.add((st["fpar"], st["fdata"], st["cov"], q))
        ops.append(dict(op="query", a="", b="", q=q, obs=obs))

    def state():
        if st["ok"] and st["par"] == st["fpar"]:
            ops.append(dict(op="state", a="", b="", obs=observe(lambda: attributes(m))))

    for k, o in enumerate(hist):
        op, a, b = o["op"], o["a"], o["b"]
        if op == "set":
            m.set_params(**params(cls, pname[a]))
            st["par"] = a
            ops.append(o)
        elif op in ("fit", "warmfit"):
            Df = fresh_copy(D[a])
            held = [Df]
            if op == "warmfit":
                m.set_params(warm_start=True)
            obs = fit(m, Df, b == "store")
            if op == "warmfit":
                m.set_params(warm_start=False)
            good = obs["tag"].startswith("fitted")
            ops.append({**o, "obs": obs, "fitted": good})
            need.add((st["par"], a, "none", "fit"))
            if good:
                st.update(fpar=st["par"], fdata=a, ok=op == "fit", cov="own" if b == "store" else "none")
            else:
                st["ok"] = False
        elif op == "bad":
            kind = ch(BADS)
            r = bad(m, fresh_copy(D[ch(["d1", "d2"])]), kind)
            ops.append({**o, "a": kind, **r})
            st["ok"] = False
        elif op == "query":
            for q in rng.choice(sorted(QUERIES), 3, replace=False):
                do_query(str(q))
            state()
        elif op == "probe":
            probe(m, fresh_copy(D[st["fdata"] or "d1"]), rng)
            ops.append(o)
            state()
        elif op == "scribble":
            scribble(m, fresh_copy(D[st["fdata"] or "d1"]), held[0] if held else {"X": None})
            ops.append(o)
            state()
        elif op == "storecov":
            if st["ok"]:
                obs = storecov(m, fresh_copy(D[st["fdata"]]), a)
                if obs["tag"].startswith("ok"):
                    st["cov"] = a
                    ops.append({**o, "obs": obs})
        elif op in ("pickle", "deepcopy"):
            m = pickle.loads(pickle.dumps(m)) if op == "pickle" else copy.deepcopy(m)
            ops.append(o)
            state()
        elif op == "clone":
            c = skb.clone(m)
            p1, p2 = m.get_params(deep=False), c.get_params(deep=False)
            same = set(p1) == set(p2) and all(same_param(p1[x], p2[x]) for x in p1)
            tag = ("fitted" if hasattr(c, "coef_") else "unfitted") + (", same parameters" if same else ", other parameters")
            m = c
            ops.append({**o, "obs": dict(tag=tag, v=[])})
            st.update(ok=False, fpar=None, fdata=None, cov="none")
        elif op == "sibling":
            sib = cls(**m.get_params(deep=False))
            Ds = fresh_copy(D[a])
            fit(sib, Ds, False)
            for q in ("predict", "covariance_matrix"):
                observe(lambda: QUERIES[q](sib, Ds))
            ops.append(o)
            state()
    for q in rng.permutation(sorted(QUERIES))[:9]:
        do_query(str(q))
    state()
    # what a fresh estimator gives
    ref = {}
    for p, d, c in sorted({k[:3] for k in need} | {k[:2] + ("none",) for k in need}):
        f = cls(**params(cls, pname[p]))
        Df = fresh_copy(D[d])
        o = fit(f, Df, False)
        r = ref.setdefault(f"{p}|{d}|{c}", {})
        r["fit"] = o
        if not o["tag"].startswith("fitted"):
            continue
        if c != "none":
            storecov(f, Df, c)
        for (p2, d2, c2, q) in sorted(need):
            if (p2, d2, c2) == (p, d, c) and q != "fit":
                r[q] = observe(lambda: QUERIES[q](f, fresh_copy(D[d])))
    sp = any(v == "f32" for v in dname.values())
    return dict(ops=ops, ref=ref, rtol=1e-5 if sp else 1e-7,
                what=f"{cls.__name__} {pname} {dname} {[t['op'] + ':' + t['a'] + ('+' if t['b'] else '') for t in hist]}")


def same_param(a, b):
    if a is b:
        return True
    if sps.issparse(a):
        return sps.issparse(b) and (a != b).nnz == 0
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    if hasattr(a, "__dict__") and type(a) is type(b):
        return all(same_param(x, b.__dict__.get(k)) for k, x in a.__dict__.items())
    return type(a) is type(b) and a == b
