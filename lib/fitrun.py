"""Run one estimation scenario on the real library and record it as a trace line."""
import contextlib
import io

import numpy as np
import scipy.sparse as sps

import gen
from vlib import Quiet

CONV = ("ConvergenceWarning",)


def problem(rng, *, combo=None, n=None, p=None, fmt=None, solver=None, alpha=None, l1=None,
            bounds=None, scale=None, fi=None, wkind=None, offkind=None, pen=None, kinds=None,
            ratio=None, tol=1e-7, nuisance=True, size=None):
    """draw a scenario (plain data, picklable)"""
    ch = lambda seq: seq[rng.integers(len(seq))]
    size = size or ("small" if rng.random() < 0.93 else "mid")
    if size == "mid":
        p = p or int(rng.integers(8, 20))
        n = n or int(rng.integers(2 * p, 3 * p + 10))
        kinds = kinds or [ch(["norm", "norm", "sparse", "bin", "shift", "big"]) for _ in range(p)]
        alpha = alpha if alpha is not None else ch([0.01, 0.05, 0.2])
    f, lk = combo or ch(gen.COMBOS)
    p = p if p is not None else int(ch([1, 2, 3, 3, 4, 5, 6]))
    al = alpha if alpha is not None else ch([None, 0.0, 0.001, 0.01, 0.05, 0.2, 1.0])
    a = 0.0 if al is None else al
    l1 = l1 if l1 is not None else ch([0.0, 0.0, 0.3, 0.5, 1.0, 1.0])
    n = n if n is not None else (int(rng.integers(4 * p + 6, 4 * p + 18)) if a < 0.01 or rng.random() < 0.7
                                 else int(rng.integers(max(4, p - 1), p + 8)))
    fi = fi if fi is not None else bool(rng.random() < 0.75)
    scale = scale if scale is not None else bool(fi and rng.random() < 0.35)
    X, ks = gen.design(rng, n, p, kinds)
    offkind = offkind or ch(["none", "none", "none", "vec", "vec", "scalar"])
    off = {"none": None, "vec": np.round(rng.uniform(-0.6, 0.6, size=n), 3), "scalar": 0.3}[offkind]
    offv = np.zeros(n) if off is None else np.broadcast_to(off, (n,)).astype(float)
    ratio = ratio if ratio is not None else bool(rng.random() < 0.3)
    y = gen.response(rng, f, lk, X, offv, ratio=ratio)
    wkind = wkind or ch(["none", "none", "unif", "unif", "big", "int", "zeros", "scalar", "ones"])
    s = gen.weights(rng, n, wkind)
    if wkind == "zeros" and len(np.unique(y[s > 0])) < 2:
        s = np.ones(n)
    fb, (_, lrec) = gen.fam_base(f), gen.link(lk, f)
    normal_id = (f in ("normal", "gaussian")) and lrec["name"] == "identity"
    hasl1 = a > 0 and l1 > 0
    bounds = bounds if bounds is not None else bool(rng.random() < 0.25)
    lb = ub = None
    if bounds:
        t = ch(["lower", "upper", "both", "scalar", "fixed"])
        if t in ("lower", "both"):
            lb = np.where(rng.random(p) < 0.7, np.round(rng.uniform(-0.3, 0.2, p), 3), -np.inf)
        if t in ("upper", "both"):
            ub = np.where(rng.random(p) < 0.7, np.round(rng.uniform(0.21, 0.5, p), 3), np.inf)
        if t == "scalar":
            lb, ub = ch([(0.0, None), (None, 0.0), (-0.1, 0.1), (0, None)])
        if t == "fixed":
            lb = np.full(p, -np.inf)
            ub = np.full(p, np.inf)
            j = rng.integers(p)
            lb[j] = ub[j] = ch([0.0, 0.2, -0.1])
    if solver is None:
        if bounds:
            solver = ch(["auto", "irls-cd"])
        elif hasl1:
            solver = ch(["auto", "irls-cd"])
        else:
            solver = ch(["auto", "auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr"]
                        + (["closed-form"] * 2 if normal_id and not hasl1 else []))
    est = dict(alpha=al, l1_ratio=l1, fit_intercept=fi, scale_predictors=scale, solver=solver,
               gradient_tol=tol, max_iter=300 if solver != "trust-constr" else 2000)
    if a > 0 or rng.random() < 0.2:
        pen = pen or ch(["id", "id", "p1", "p2v", "p2m", "both", "none", "bothm"])
        if pen in ("p1", "both", "bothm"):
            est["P1"] = np.round(rng.uniform(0.0, 2.0, p), 2) * (rng.random(p) < 0.8)
        if pen in ("p2v", "both"):
            est["P2"] = np.round(rng.uniform(0.2, 2.0, p), 2)
        if pen in ("p2m", "bothm"):
            M = gen.psd(rng, p)
            if p > 1 and rng.random() < 0.5:  # an asymmetric matrix with the same quadratic form
                M = M + np.triu(np.full((p, p), 0.25), 1) - np.tril(np.full((p, p), 0.25), -1)
            if rng.random() < 0.5:
                M = M if rng.random() < 0.4 else gen.psd(rng, p)
                M = [sps.csc_matrix, sps.csr_matrix, sps.csc_matrix, sps.coo_matrix, sps.csc_array][rng.integers(5)](M)
            est["P2"] = M
        if pen == "none":
            est["P2"] = None
    if bounds:
        if lb is not None:
            est["lower_bounds"] = lb
        if ub is not None:
            est["upper_bounds"] = ub
    used_cd = solver == "irls-cd" or (solver == "auto" and (bounds or hasl1))
    if used_cd and rng.random() < 0.3:
        est["selection"] = "random"
        est["random_state"] = int(rng.integers(100))
    if rng.random() < 0.2 and solver in ("irls-cd", "irls-ls", "auto"):
        est["hessian_approx"] = ch([0.0, 1e-3, 0.05])
    if rng.random() < 0.15:
        est["start_params"] = np.round(0.05 * rng.normal(size=p + fi), 3)
        if lrec["name"] == "identity" or lrec["name"] == "tweedie":
            if fi:
                est["start_params"][0] = 3.0
            elif fb not in ("normal", "gaussian", "ghs"):
                del est["start_params"]
    if fmt is None:
        fmt = ch(gen.FORMATS + ["c", "f"])
    if nuisance:  # options that must not matter
        if rng.random() < 0.15:
            est["copy_X"] = True
        if rng.random() < 0.1:
            est["check_input"] = False
        if rng.random() < 0.1:
            est["force_all_finite"] = False
        if rng.random() < 0.1:
            est["drop_first"] = True
        if rng.random() < 0.1:
            est["max_inner_iter"] = 200000
        if rng.random() < 0.08:
            est["verbose"] = int(rng.integers(1, 3))
        if rng.random() < 0.15 and est.get("hessian_approx") is None:
            est["gradient_tol"] = None
            tol = 1e-8 if solver == "trust-constr" else 1e-4
            if solver in ("lbfgs", "trust-constr"):
                est["gradient_tol"] = tol = 1e-7
    return dict(X=X, y=y, s=s, off=off, fam=f, link=lk, est=est, fmt=fmt, kinds=list(ks),
                tol=tol, ratio=ratio)


def estimator(sc, **over):
    import glum

    fa, _ = gen.family(sc["fam"])
    la, _ = gen.link(sc["link"], sc["fam"])
    kw = dict(sc["est"])
    kw.update(over)
    return glum.GeneralizedLinearRegressor(family=fa, link=la, **kw)


def kind(v, n=None):
    return "none" if v is None else "scalar" if np.ndim(v) == 0 else "vec"


def raw(v):
    return 0.0 if v is None else float(v) if np.ndim(v) == 0 else np.asarray(v, float)


def base_record(sc):
    """the arguments of the call, as they are passed"""
    est = sc["est"]
    _, frec = gen.family(sc["fam"])
    _, lrec = gen.link(sc["link"], sc["fam"])
    P1, P2 = est.get("P1", "identity"), est.get("P2", "identity")
    p1k = "none" if P1 is None else "identity" if isinstance(P1, str) else "vec"
    if P2 is None or isinstance(P2, str):
        p2k, P2 = ("none" if P2 is None else "identity"), []
    else:
        P2 = P2.toarray() if hasattr(P2, "toarray") else np.asarray(P2, float)
        p2k = "vec" if P2.ndim == 1 else "mat"
    lb, ub, al = est.get("lower_bounds"), est.get("upper_bounds"), est.get("alpha")
    return dict(
        X=np.asarray(sc["X"], float), y=np.asarray(sc["y"], float),
        sk=kind(sc["s"]), s=raw(sc["s"]), ok=kind(sc["off"]), off=raw(sc["off"]),
        fam=frec, link=lrec, ak="none" if al is None else "given",
        alpha=0.0 if al is None or np.ndim(al) else float(al),
        l1=float(est.get("l1_ratio", 0.0)), p1kind=p1k,
        P1=[] if p1k != "vec" else np.asarray(P1, float), p2kind=p2k, P2=P2,
        fi=bool(est.get("fit_intercept", True)), scale=bool(est.get("scale_predictors", False)),
        lk=kind(lb), lb=raw(lb), uk=kind(ub), ub=raw(ub), tol=tolerance(sc), slack=1.0,
        mustconv=wellposed(sc))


def tolerance(sc):
    """what the stopping rule promises when no failure to converge is reported"""
    return 1.001 * float(sc["tol"])


CONVEX = {("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"),
          ("tweedie", "log"), ("negbin", "log")}


def wellposed(sc):
    """problems on which the solvers converge"""
    _, f = gen.family(sc["fam"])
    _, lk = gen.link(sc["link"], sc["fam"])
    if (f["name"], lk["name"]) not in CONVEX or sc["est"]["solver"] in ("lbfgs", "trust-constr"):
        return False
    if f["name"] == "tweedie" and not 1 <= f["p"] <= 2:
        return False
    return sc["est"].get("alpha") not in (None, 0.0) and "start_params" not in sc["est"]


def benign(sc):
    """well-posed problems of strictly convex objectives on which no fit needs help: without bounds that make the
    full step infeasible unless one step suffices"""
    e = sc["est"]
    if not wellposed(sc) or e.get("l1_ratio", 0) == 1:
        return False
    return gen.fam_base(sc["fam"]) in ("normal", "gaussian") or "lower_bounds" not in e and "upper_bounds" not in e


def run_fit(sc, model=None):
    """fit and record; never raises for errors of the library"""
    rec = base_record(sc)
    m = model if model is not None else estimator(sc)
    out = io.StringIO()  # what verbose fits print
    with Quiet() as q, np.errstate(all="ignore"), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            Xf = gen.to_format(sc["X"], sc["fmt"])
            m.fit(Xf, sc["y"], sample_weight=sc["s"], offset=sc["off"])
            rec["outcome"] = "ok"
            rec["b"] = float(m.intercept_)
            rec["w"] = np.asarray(m.coef_, float)
        except Exception as ex:
            rec["outcome"] = f"{type(ex).__name__}: {str(ex)[:120]}"
            rec["b"], rec["w"] = 0.0, []
    rec["conv"] = not any(n in CONV for n in q.names) and not any(
        "failed" in msg for msg in q.messages)
    rec["niter"] = int(getattr(m, "n_iter_", -1)) if rec["outcome"] == "ok" else -1
    return rec


def describe(sc):
    e = {k: (np.asarray(v).tolist() if isinstance(v, np.ndarray) else v) for k, v in sc["est"].items()}
    return f"{sc['fam']}/{sc['link']} n,p={np.shape(sc['X'])} fmt={sc['fmt']} {e}"
