"""Histories of events on real objects for FrameTrace: who wrote to what."""
import contextlib
import hashlib
import io
import pickle
import types

import numpy as np
import pandas as pd
import scipy.sparse as sps

import gen
from vlib import Quiet


# ------------------------------------------------------------------ contents, bit for bit
def digest(o):
    return hashlib.md5(pickle.dumps(contents(o))).hexdigest()


def contents(o, depth=0):
    import polars as pl
    import tabmat as tm

    if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        return (type(o).__name__, repr(o))
    if isinstance(o, np.ndarray):
        b = repr(o.tolist()).encode() if o.dtype == object else np.ascontiguousarray(o).tobytes()
        return ("nd", str(o.dtype), o.shape, o.strides, bool(o.flags.writeable), b)
    if isinstance(o, (types.ModuleType, type)) or callable(o):
        return repr(o)
    if isinstance(o, np.generic):
        return ("np", str(o.dtype), o.tobytes())
    if isinstance(o, tm.CategoricalMatrix):
        return ("cat", contents(np.asarray(o.indices)), contents(np.asarray(o.cat)), o.drop_first, list(map(str, o.column_names)))
    if isinstance(o, tm.SplitMatrix):
        return ("split", [contents(m) for m in o.matrices], [contents(np.asarray(i)) for i in o.indices])
    if isinstance(o, tm.SparseMatrix):
        return ("tms", contents(o.unpack()), list(map(str, o.column_names)), list(map(str, o.term_names)))
    if isinstance(o, tm.DenseMatrix):
        return ("tmd", contents(o.unpack()), list(map(str, o.column_names)), list(map(str, o.term_names)))
    if sps.issparse(o):
        if o.format in ("csc", "csr"):
            return ("sp", type(o).__name__, o.shape, contents(o.data), contents(o.indices), contents(o.indptr))
        if o.format == "coo":
            return ("coo", o.shape, contents(o.data), contents(np.asarray(o.row)), contents(np.asarray(o.col)))
        return ("dia", o.shape, contents(o.toarray()))
    if isinstance(o, pd.DataFrame):
        return ("df", [contents(o[c]) for c in o.columns], list(map(str, o.columns)), contents(o.index))
    if isinstance(o, pd.Series):
        if isinstance(o.dtype, pd.CategoricalDtype):
            return ("sc", contents(np.asarray(o.cat.codes)), list(map(repr, o.cat.categories)), o.cat.ordered, str(o.name))
        return ("s", str(o.dtype), contents(o.to_numpy()), str(o.name), contents(o.index))
    if isinstance(o, pd.Index):
        return ("ix", str(o.dtype), list(map(repr, o)))
    if isinstance(o, pl.DataFrame):
        return ("pl", {k: str(v) for k, v in o.schema.items()}, [list(map(repr, o[c].to_list())) for c in o.columns])
    if isinstance(o, pl.Series):
        return ("pls", str(o.dtype), list(map(repr, o.to_list())))
    if isinstance(o, dict):
        return ("dict", [(repr(k), contents(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [contents(v, depth + 1) for v in o])
    if depth < 4 and hasattr(o, "__dict__"):
        return (type(o).__name__, [(k, contents(v, depth + 1)) for k, v in sorted(vars(o).items())])
    return (type(o).__name__, repr(o))


# ------------------------------------------------------------------ a caller with its objects
def strided(a, rng):
    """the same vector as a view into something larger"""
    k = rng.integers(4)
    if k == 0:
        z = np.full(2 * len(a), 9.0, dtype=a.dtype)
        z[::2] = a
        return z[::2]
    if k == 1:
        return a.astype(np.float32)
    if k == 2:
        return a.tolist()
    return a


XF = ["c", "f", "nc", "list", "csc", "csr", "csc_array", "coo", "tm-dense", "tm-sparse", "tm-split", "df", "polars", "f32", "int",
      "unsorted", "f32f", "tm-cat", "f", "f", "c"]


def design(X, fmt, rng):
    import tabmat as tm

    if fmt == "unsorted":
        A = sps.csr_matrix(X)
        for i in range(X.shape[0]):
            a, b = A.indptr[i], A.indptr[i + 1]
            A.indices[a:b] = A.indices[a:b][::-1].copy()
            A.data[a:b] = A.data[a:b][::-1].copy()
        A.has_sorted_indices = False
        return A
    if fmt == "f32f":
        return np.asfortranarray(X.astype(np.float32))
    if fmt == "tm-cat":
        c = pd.Categorical(rng.choice(list("ab"), X.shape[0]), categories=list("ab"))
        return tm.SplitMatrix([tm.DenseMatrix(np.asfortranarray(X[:, :1])), tm.CategoricalMatrix(c)], [np.array([0]), np.array([1, 2])])
    return gen.to_format(X, fmt)


def world(rng):
    """the caller's objects and an estimator"""
    import glum

    ch = lambda s: s[rng.integers(len(s))]
    W, e = {}, {}
    n = int(rng.integers(30, 45))
    p = 3
    X = np.round(rng.normal(size=(n, p)) * [1.0, 3.0, 0.4] + [0, 0.5, 0], 3)
    fam = ch(["poisson", "gamma", "normal", "binomial", "tweedie", "negbin"])
    kind = ch(["glm", "glm", "glm", "path", "cv", "frame", "formula"])
    fmt = ch(XF)
    if fmt == "int":
        X = np.round(X)
    lin = 0.3 * X[:, 0] - 0.1 * X[:, 1]
    mu = np.exp(lin)
    y = {"poisson": lambda: rng.poisson(mu) + 0.0, "gamma": lambda: np.round(rng.gamma(4, mu / 4) + 0.05, 3),
         "normal": lambda: np.round(lin + rng.normal(size=n), 3), "binomial": lambda: (rng.random(n) < 0.5) + 0.0,
         "tweedie": lambda: np.round(rng.gamma(2, mu / 2) * (rng.random(n) < 0.7), 3), "negbin": lambda: rng.poisson(mu) + 0.0}[fam]()
    y[:2] = [1.0, 0.0] if fam == "binomial" else [1.0, 2.0]
    W["y"] = ch([lambda: y, lambda: y.tolist(), lambda: y.astype(np.float32), lambda: pd.Series(y), lambda: y, lambda: strided(y, rng)])()
    if rng.random() < 0.6:
        W["weights"] = strided(ch([np.round(rng.uniform(0.5, 2, n), 3)] * 4 + [np.ones(n), np.full(n, 1 / n)]), rng)
    if rng.random() < 0.6:
        W["offset"] = strided(ch([np.round(rng.uniform(-0.3, 0.3, n), 3)] * 4 + [np.zeros(n)]), rng)
    W["clusters"] = ch([lambda: rng.integers(0, 6, n), lambda: np.array([f"c{k}" for k in rng.integers(0, 6, n)]),
                        lambda: pd.Series(rng.integers(0, 5, n))])()
    Xn = X[rng.permutation(n)]
    frame = kind in ("frame", "formula")
    if frame:
        lev = ["a", "b", "c"]
        code = np.concatenate([[0, 1, 2], rng.integers(0, 3, n - 3)])

        def df(Z, c, missing=False):
            vals = [lev[i] for i in c]
            if missing:
                vals[5] = None
            if fmt == "polars":
                import polars as pl

                return pl.DataFrame({"x": Z[:, 0], "g": pl.Series(vals, dtype=pl.Enum(lev)), "z": Z[:, 1]})
            return pd.DataFrame({"x": Z[:, 0], "g": pd.Categorical(vals, categories=lev), "z": Z[:, 1]})

        miss = rng.random() < 0.3
        W["X"], W["new X"] = df(X, code, miss), df(Xn, rng.integers(0, 2, n))
        p = 5
        e.update(drop_first=bool(rng.random() < 0.5))
        p -= e["drop_first"]
        if miss:
            e["cat_missing_method"] = ch(["zero", "convert"])
            p += e["cat_missing_method"] == "convert"
        if kind == "formula":
            e["formula"] = ch(["x + g + z", "x + g + z", "x + g + np.exp(shift*z)"])
            e["interaction_separator"] = ":"
            W["context"] = {"np": np, "shift": np.array(0.01)}
    else:
        W["X"] = design(X, fmt, rng)
        W["new X"] = design(Xn, fmt if fmt == "tm-cat" else ch([fmt, "c", "f", "csr", "tm-dense"]), rng)
    X32 = fmt in ("f32", "f32f") and not frame
    dt = lambda a: a.astype(np.float32) if X32 or rng.random() < 0.1 else a
    l1 = ch([0.0, 0.0, 0.5, 1.0])  # also values that leave a product unchanged
    al = ch([0.05, 0.05, 1.0])
    solver = "auto"
    arr = lambda a: ch([dt, dt, lambda v: v.tolist()])(np.asarray(a, float))
    if rng.random() < 0.5:
        e["P1"] = arr(np.round(rng.uniform(0.2, 2, p), 2))
    if rng.random() < 0.5:
        M = gen.psd(rng, p)
        e["P2"] = ch([lambda: arr(np.round(rng.uniform(0.2, 2, p), 2)), lambda: dt(M), lambda: sps.csc_matrix(M), lambda: sps.csr_matrix(M),
                      lambda: M.tolist()])()
    con = ch(["none", "none", "bounds", "ineq"])
    if con == "bounds":
        e["lower_bounds"] = arr(np.full(p, -0.2))
        e["upper_bounds"] = arr(np.full(p, 0.4))
    elif con == "ineq":
        l1 = 0.0
        solver = "irls-ls-monotonic"
        e["A_ineq"], e["b_ineq"] = arr(-np.eye(p)[:2]), arr(np.zeros(2))
    elif l1 == 0:
        solver = ch(["auto", "irls-ls", "irls-cd", "lbfgs"] + (["closed-form"] if fam == "normal" else []))
    if rng.random() < 0.4:
        e["start_params"] = arr(np.concatenate([[0.3], np.full(p, 0.01)]))
    if rng.random() < 0.3:
        e["scale_predictors"] = True
    if rng.random() < 0.2:
        e["check_input"] = False
    if con != "ineq" and "start_params" not in e and not e.get("scale_predictors") and rng.random() < 0.15:
        e["fit_intercept"] = False
    if rng.random() < 0.3:
        e["hessian_approx"] = 0.01
    if rng.random() < 0.3:
        e["selection"], e["random_state"] = "random", 5
    e["copy_X"] = ch([None, None, True])
    fa = gen.family(fam if fam != "tweedie" else "tweedie:1.5")[0]
    e.update(family=fa, solver=solver, l1_ratio=l1, max_iter=200)
    if rng.random() < 0.3:
        e["link"] = glum.LogLink() if fam not in ("normal", "binomial") else "auto"
    if kind == "cv":
        e.update(alphas=ch([[0.1, 0.3, 0.05], [1.0], np.array([0.05, 0.1]), None]), cv=3, l1_ratio=ch([l1, [l1]]))
        if e["alphas"] is None:
            e.update(n_alphas=3, min_alpha_ratio=0.1)
        m = glum.GeneralizedLinearRegressorCV(**e)
    elif kind == "path":
        e.update(alpha_search=True, alpha=ch([[0.1, 0.3, 0.05], [1.0, 0.3], np.array([0.3, 0.05]), pd.Series([0.3, 0.1])]))
        m = glum.GeneralizedLinearRegressor(**e)
    else:
        e["alpha"] = ch([al, al, 0.0]) if "P2" not in e else al
        m = glum.GeneralizedLinearRegressor(**e)
    for k, v in e.items():
        if not isinstance(v, (str, bool, int, float, type(None))):
            W["param " + k] = v
    k1 = 1 if e.get("fit_intercept", True) else 0
    R = np.zeros((1, p + k1))
    R[0, k1] = 1.0
    W["R"], W["r"] = R, ch([np.array([0.1]), None])
    W["values"] = [0.1]
    return W, m, dict(kind=kind, fmt=fmt, fam=fam, solver=solver, n=n, est={k: repr(v)[:60] for k, v in e.items()})


RESULTS = ("coef_", "intercept_", "coef_path_", "intercept_path_", "col_means_", "col_stds_", "n_iter_", "alpha_", "alphas_", "l1_ratio_",
           "deviance_path_", "feature_names_", "term_names_", "n_features_in_", "diagnostics_", "_alphas")


def results(m):
    return {a: getattr(m, a) for a in RESULTS if hasattr(m, a)}


def history(item):
    """replay one history; the lines for FrameTrace"""
    h, seed = item
    rng = np.random.default_rng(seed)
    ch = lambda s: s[rng.integers(len(s))]
    W, m, desc = world(rng)
    if h["copyX"] == "no" and not isinstance(W["X"], list):
        m.set_params(copy_X=False)
    outs = {}   # name -> object the caller keeps
    lines, ok = [], 0
    kw = dict(sample_weight=W.get("weights"), offset=W.get("offset"))
    ctx = dict(context=W["context"]) if "context" in W else {}

    def keep(name, o):
        outs[f"{len(lines)}:{name}"] = o

    def do(ev):
        if ev in ("fit", "warm"):
            if ev == "warm":
                m.set_params(warm_start=True)
            fk = dict(kw, **ctx)
            if desc["kind"] != "cv" and rng.random() < 0.4:
                fk.update(store_covariance_matrix=True, clusters=ch([None, W["clusters"]]))
            try:
                m.fit(W["X"], W["y"], **fk)
            finally:
                if ev == "warm":
                    m.set_params(warm_start=False)
        elif ev == "predict":
            a = {}
            if desc["kind"] == "path":
                a = ch([{}, dict(alpha_index=W.setdefault("alpha_index", [1, 0])), dict(alpha=0.3)])
            keep("prediction", m.predict(W["new X"], sample_weight=ch([None, kw["sample_weight"]]), offset=ch([None, kw["offset"]]), **a, **ctx))
        elif ev == "linear":
            keep("linear predictor", m.linear_predictor(W["new X"], offset=ch([None, kw["offset"]]), **ctx))
        elif ev == "score":
            keep("score", m.score(W["X"], W["y"], **kw, **ctx))
        elif ev == "criteria" and desc["kind"] != "cv":
            keep("criteria", getattr(m, ch(["aic", "bic", "aicc"]))(W["X"], W["y"], sample_weight=kw["sample_weight"], **ctx))
        elif ev in ("infer", "store"):
            a = dict(X=W["X"], y=W["y"], **kw, **ctx)
            a.update(robust=ch([None, True, False]), clusters=ch([None, W["clusters"]]))
            if ev == "store":
                a["store_covariance_matrix"] = True
            what = ch(["covariance_matrix", "std_errors"] + (["coef_table", "matrix", "features", "terms"] if ev == "infer" else []))
            if what == "matrix":
                r = m.wald_test(R=W["R"], r=W["r"], **a)
            elif what in ("features", "terms"):
                W.setdefault("names", [str((m.feature_names_ if what == "features" else m.term_names_)[0])])
                r = m.wald_test(**{what: W["names"]}, r=W["values"], **a)
            else:
                r = getattr(m, what)(**a)
            keep(what, r)
        elif ev == "report":
            keep("diagnostics", m.get_formatted_diagnostics(full_report=True))
            with contextlib.redirect_stdout(io.StringIO()):
                m.report_diagnostics()
        elif ev == "params":
            import sklearn

            m.get_params()  # by the convention of scikit-learn, the very objects that were given
            sklearn.base.clone(m)
            pickle.dumps(m)
            repr(m)
        elif ev == "give":
            for k, v in results(m).items():
                keep(k, v)
            if getattr(m, "covariance_matrix_", None) is not None:
                keep("covariance_matrix_", m.covariance_matrix_)
        elif ev == "scribble-in":
            for k, v in W.items():
                scribble(v, k)
        elif ev == "scribble-out":
            for k, v in outs.items():
                scribble(v, k)

    def scribble(v, k):
        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
            v[...] = v[::-1].copy()
            if k[0].isdigit() and v.dtype.kind == "f":
                v += 1.25
        elif isinstance(v, list):
            v.reverse()
        elif isinstance(v, pd.Series) and k != "y":
            v.iloc[:] = v.to_numpy()[::-1].copy()
        elif isinstance(v, pd.DataFrame):
            for j in range(v.shape[1]):
                if v.dtypes.iloc[j].kind == "f":
                    v.iloc[:, j] = v.iloc[:, j].to_numpy()[::-1].copy() + 0.0
        elif sps.issparse(v) and hasattr(v, "data") and not k.startswith("param"):
            v.data[...] = v.data[::-1].copy()

    for ev in h["hist"]:
        d0 = {k: digest(v) for k, v in W.items()}
        o0 = {k: digest(v) for k, v in outs.items()}
        m0 = {k: digest(v) for k, v in results(m).items()}
        c0 = digest(getattr(m, "covariance_matrix_", None))
        names = list(W)
        outcome = "ok"
        with Quiet(), np.errstate(all="ignore"):
            try:
                do(ev)
            except Exception as ex:
                outcome = f"{type(ex).__name__}: {str(ex)[:90]}"
        m1 = {k: digest(v) for k, v in results(m).items()}
        ch_in = [k for k in names if digest(W[k]) != d0[k]]
        copyx = "no" if m.copy_X is False else "yes"
        lines.append(dict(ev=ev, copyX=copyx, inputs=[k for k in ch_in if k != "X"], x=[k for k in ch_in if k == "X"],
                          outs=[k for k, v in o0.items() if digest(outs[k]) != v],
                          model=sorted(k for k in set(m0) | set(m1) if m0.get(k) != m1.get(k)),
                          cov=["covariance_matrix_"] if digest(getattr(m, "covariance_matrix_", None)) != c0 else [], outcome=outcome))
        ok += outcome == "ok"
        if ev == "scribble-out":
            outs.clear()
            if hasattr(m, "coef_"):
                break   # the results are the caller's doing from here on
    return dict(lines=lines, desc=desc, ok=ok)
