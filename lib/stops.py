"""Runs of the solvers under given limits and tolerances, for StopTrace."""
import contextlib
import io

import numpy as np

import fitrun
import gen
from vlib import Quiet

MONO = ["rows", "cols"]


def run(sc, over):
    """fit; what the diagnostics and warnings say"""
    m = fitrun.estimator(sc, **over)
    out = dict(outcome="ok")
    with Quiet() as q, np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()):
        try:
            m.fit(gen.to_format(sc["X"], sc["fmt"]), sc["y"], sample_weight=sc["s"], offset=sc["off"])
        except Exception as ex:
            return dict(outcome=f"{type(ex).__name__}: {str(ex)[:120]}")
    conv = [t for n, t in zip(q.names, q.messages) if n == "ConvergenceWarning"]
    out["lsfail"] = any(t.startswith("Line search") for t in conv)
    # what one step or the inner problem had trouble with is no report about the whole
    out["nwarn"] = sum(not t.startswith(("Line search", "Coordinate descent")) for t in conv)
    out["warned"] = out["nwarn"] > 0
    out["niter"] = int(m.n_iter_)
    d = m.get_formatted_diagnostics(full_report=True)
    if isinstance(d, str):
        out["rows"], out["idx"] = None, []
    else:
        out["idx"] = [int(i) for i in d.index]
        f = lambda c: d[c].astype(float).tolist()
        out["rows"] = [dict(norm=a, step=b, icpt=c, cycles=int(e), obj=g, l1=h, l2=i) for a, b, c, e, g, h, i in zip(
            f("convergence"), f("L2(step)"), f("first_coef"), f("n_cycles"), f("objective_fct"), f("L1(coef)"), f("L2(coef)"))]
    out["views"] = views(m)
    out["b"], out["w"] = float(m.intercept_), np.asarray(m.coef_, float)
    out["m"] = m
    return out


UNFIT = "Model has not been fit, so no diagnostics exist."


def begin(sc, over):
    """where the iterations have to begin"""
    start = over.get("start_params", sc["est"].get("start_params"))
    if start is None:
        return dict(kind="zero", b=0.0, w=[0.0] * sc["X"].shape[1])
    start = [float(x) for x in start]
    fi = sc["est"]["fit_intercept"]
    return dict(kind="given", b=start[0] if fi else 0.0, w=start[1:] if fi else start)


CUSTOM = [["convergence"], ["n_cycles", "objective_fct"], ["L2(coef)", "intercept", "L2(step)"]]


def views(m):
    """what the views of the diagnostics show, next to the attribute they are views of"""
    import sklearn.base

    out = dict(unfit=m.__class__(**{k: v for k, v in m.get_params().items()}).get_formatted_diagnostics())
    raw = m.diagnostics_
    if raw is None:
        t = m.get_formatted_diagnostics(full_report=True)
        return dict(out, have=False, text=[m.get_formatted_diagnostics(), t if isinstance(t, str) else "frame"])
    num = lambda s: [float("nan") if x is None else float(x) for x in s]
    raw = [{k: float("nan") if x is None else float(x) for k, x in r.items()} for r in raw]
    tabs = []
    for kw, ask in [({}, []), (dict(full_report=True), ["*"])] + [(dict(custom_columns=c), c) for c in CUSTOM] + \
            [(dict(custom_columns=CUSTOM[0], full_report=True), CUSTOM[0])]:
        d = m.get_formatted_diagnostics(**kw)
        tabs.append(dict(ask=ask, idx=num(d.index), cols=[str(c) for c in d.columns], vals=[num(d[c]) for c in d.columns]))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        m.report_diagnostics()
    return dict(out, have=True, raw=[dict(names=list(r), vals=list(r.values())) for r in raw], tabs=tabs,
                printed=len(buf.getvalue().splitlines()))


def base(sc, over, what):
    sc2 = dict(sc, est={**sc["est"], **over})
    sc2["tol"] = over.get("gradient_tol", sc["tol"])
    r = fitrun.base_record(sc2)
    r["tol"] = float(sc2["tol"])
    r.update(what=what, rows=[], idx=[], niter=0, lim=int(sc2["est"]["max_iter"]), stk="none", steptol=0.0, warned=False,
             lsfail=False, ref=[], cert=False, want=dict(why="", k=0, conv=False), finite=True, mono=False, viol=0.0,
             norm="l1", points=[], nwarn=0, orel=1e-10, outcome="ok", b=0.0, w=[], views=dict(have=False, unfit=UNFIT, text=[]),
             begin=dict(kind="none", b=0.0, w=[]))
    return r


SURE = {("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("normal", "identity")}
WELL = [("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie", "log"), ("negbin", "log"), ("normal", "log"),
        ("invgauss", "log"), ("binomial", "cloglog"), ("poisson", "auto"), ("tweedie:1.7", "auto"), ("normal", "auto")]


def failed(sc, over, a):
    _, f = gen.family(sc["fam"])
    _, lk = gen.link(sc["link"], sc["fam"])
    if (f["name"], lk["name"]) not in SURE:
        return None
    return dict(bad=f"fit failed: {a['outcome']} [{fitrun.describe(sc)} {over}]")


def rows_job(job):
    """realise a behaviour of the model on a problem"""
    beh, seed = job
    rng = np.random.default_rng(seed)
    ch = lambda s: s[int(rng.integers(len(s)))]
    solver = ch(["irls-ls", "irls-ls", "irls-cd", "irls-cd", "auto"])
    pure = rng.random() < 0.5
    sc = fitrun.problem(rng, combo=ch(WELL), solver=solver, l1=0.0 if solver == "irls-ls" else None,
                        bounds=False if solver == "irls-ls" else None, nuisance=False, size="small",
                        alpha=ch([0.0, 0.01, 0.1]), fmt=ch(["c", "f", "csc", "tm-split", "df"]))
    est = sc["est"]
    for k in ("hessian_approx",) * pure:
        est.pop(k, None)
    if ch([0, 0, 1]):
        est["verbose"] = 1
    _, f = gen.family(sc["fam"])
    _, lk = gen.link(sc["link"], sc["fam"])
    if ch([0, 0, 1]):
        est["start_params"] = np.round(0.05 * rng.normal(size=sc["X"].shape[1] + est["fit_intercept"]), 3)
    single = f["name"] == "normal" and lk["name"] == "identity"
    if single and solver == "auto":
        est["solver"] = "irls-cd"
    cd = est["solver"] == "irls-cd" or (est["solver"] == "auto" and (
        "lower_bounds" in est or "upper_bounds" in est or (est.get("alpha") or 0) * est["l1_ratio"] > 0))
    lim, k, why = beh["lim"], beh["k"], beh["why"]
    over = dict(max_iter=lim, gradient_tol=1e-6)
    if why == "nan":
        if k > 0 or not est["fit_intercept"] or lk["name"] != "log" or f["name"] != "poisson":  # other gradients underflow to zero there
            return None
        p = sc["X"].shape[1]
        start = np.zeros(p + est["fit_intercept"])
        start[0] = 5000.0 if est["fit_intercept"] else 5e4
        over["start_params"] = start
        for key in ("lower_bounds", "upper_bounds"):
            est.pop(key, None)
    long = run(sc, {**over, "max_iter": lim + 7, "gradient_tol": 1e-12 if not cd else 1e-8, "step_size_tol": None, "verbose": 0})
    if long["outcome"] != "ok" and why == "nan":
        return None  # rejected start: the mean is not representable
    if long["outcome"] != "ok" and (f["name"], lk["name"]) not in SURE:
        return None
    if long["outcome"] != "ok":
        return dict(bad=f"fit failed: {long['outcome']} [{fitrun.describe(sc)}]")
    want = dict(why="", k=0, conv=False)
    if why != "nan":
        n = [r["norm"] for r in long["rows"]]
        s = [r["step"] for r in long["rows"]]
        if len(n) <= k or not np.isfinite(n).all() or (single and lim > 1 and why != "gradient"):
            return None
        small_step = 0.5 * min([x for x in s[1: k + 1] if x > 0], default=1e-3)
        if beh["steptol"]:
            over["step_size_tol"] = small_step
        if why == "gradient":
            prev = min(n[:k], default=4 * n[0] + 1e-9)
            if not n[k] < 0.3 * prev or prev < 1e-11:
                return None
            over["gradient_tol"] = float(np.sqrt(max(n[k], 1e-16) * prev)) if k else float(prev)
        elif why == "step":
            if k < 1 or min(n[: k + 1]) < 1e-11:
                return None
            over["gradient_tol"] = 0.5 * min(n[: k + 1])
            prev = min(s[1:k], default=3 * s[k])
            if not s[k] < 0.5 * prev or s[k] == 0:
                return None
            over["step_size_tol"] = float(np.sqrt(s[k] * prev))
        else:
            if k != lim or min(n[: k + 1]) < 1e-10:
                return None
            over["gradient_tol"] = 0.5 * min(n[: k + 1])
        if not cd:
            want = dict(why=why, k=k, conv=beh["conv"])
    else:
        want = dict(why=why, k=0, conv=False)
    a = run(sc, over)
    if a["outcome"] != "ok":
        return failed(sc, over, a)
    ref = run(sc, {**over, "max_iter": lim + 7, "step_size_tol": None, "verbose": 0})
    r = base(sc, over, "rows")
    if single:
        r["lim"] = 1
        ref["rows"] = ref["rows"] if ref["outcome"] == "ok" else []
    for key in ("rows", "idx", "niter", "warned", "lsfail", "b", "w", "views"):
        r[key] = a[key]
    r["begin"] = begin(sc, over)
    if r["rows"] is None:
        return dict(bad=f"no diagnostics [{fitrun.describe(sc)}]")
    r.update(ref=ref["rows"] if ref["outcome"] == "ok" else [], want=want, finite=why != "nan",
             stk="given" if "step_size_tol" in over else "none", steptol=over.get("step_size_tol", 0.0),
             cert=bool(why != "nan" and np.isfinite(a["b"]) and np.isfinite(a["w"]).all() and a["rows"][-1]["norm"] < 1e5))
    return dict(rec=r, desc=fitrun.describe(dict(sc, est={**est, **over})), beh=beh)


def none_job(seed):
    """solvers without diagnostics, the closed form, monotonic constraints, paths"""
    rng = np.random.default_rng(seed)
    ch = lambda s: s[int(rng.integers(len(s)))]
    kind = ch(["lbfgs", "lbfgs", "trust-constr", "closed-form", "mono", "path", "path", "cv"])
    lim = int(ch([1, 2, 3, 5, 20, 300]))
    tol = float(ch([1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-13]))
    if kind in ("lbfgs", "trust-constr", "closed-form"):
        sc = fitrun.problem(rng, combo=ch(WELL) if kind != "closed-form" else ("normal", "auto"), solver=kind, l1=0.0, bounds=False,
                            nuisance=False, size="small", alpha=ch([0.0, 0.01, 0.1]), fmt=ch(["c", "csc", "tm-split"]))
        over = dict(max_iter=lim, gradient_tol=tol)
        a = run(sc, over)
        if a["outcome"] != "ok":
            return failed(sc, over, a)
        if a["rows"] is not None:
            return dict(bad=f"{kind} reports diagnostics")
        r = base(sc, over, "none")
        r["views"] = a["views"]
        r.update(niter=a["niter"], warned=a["warned"], b=a["b"], w=a["w"], norm="max",
                 cert=bool(kind != "closed-form" and np.isfinite(a["w"]).all()))
        return dict(rec=r, desc=fitrun.describe(dict(sc, est={**sc["est"], **over})), beh=kind)
    if kind == "mono":
        p = int(ch([2, 3, 4]))
        sc = fitrun.problem(rng, combo=ch(WELL[:5]), p=p, solver="irls-ls-monotonic", l1=0.0, bounds=False, nuisance=False,
                            size="small", alpha=ch([0.0, 0.01, 0.1]), fmt=ch(["c", "csc"]))
        A = np.zeros((p - 1, p))
        for i in range(p - 1):
            A[i, i], A[i, i + 1] = ch([(1.0, -1.0), (-1.0, 1.0)])
        sc["est"].pop("hessian_approx", None)
        sc["est"].pop("P2", None)
        if ch([0, 1]):
            sc["est"]["start_params"] = np.round(0.05 * rng.normal(size=p + sc["est"]["fit_intercept"]), 3)
        over = dict(max_iter=lim, gradient_tol=max(tol, 1e-8), A_ineq=A, b_ineq=np.zeros(p - 1))
        a = run(sc, over)
        if a["outcome"].startswith("LinAlgError"):  # the penalty threw the iterates off: an error claims no convergence
            return None
        if a["outcome"] != "ok":
            return failed(sc, over, a)
        r = base(sc, over, "rows")
        for key in ("rows", "idx", "niter", "warned", "lsfail", "b", "w", "views"):
            r[key] = a[key]
        r["begin"] = begin(sc, over)
        viol = float(np.max(A @ a["w"])) if np.isfinite(a["w"]).all() else np.inf
        if sc["est"]["scale_predictors"] or True:  # measured on scaled coefficients by the solver: leave a margin
            sd = np.sqrt(np.average((sc["X"] - np.average(sc["X"], axis=0, weights=r["s"] if r["sk"] == "vec" else None)) ** 2,
                                    axis=0, weights=r["s"] if r["sk"] == "vec" else None))
            viol *= max(1.0, float(sd.max()))
            if 1e-7 < viol < 1e-4:
                viol = 1.0
        r.update(mono=True, viol=viol if np.isfinite(viol) else 1e9, cert=False, P2=[], p2kind="none")
        return dict(rec=r, desc=fitrun.describe(dict(sc, est={**sc["est"], **over})), beh=kind)
    # several alphas
    solver = ch(["irls-cd", "irls-ls", "lbfgs", "auto"])
    l1 = 0.0 if solver in ("irls-ls", "lbfgs") else ch([0.0, 0.5, 1.0])
    sc = fitrun.problem(rng, combo=ch(WELL[:5] + WELL[-1:]), solver=solver, l1=l1, bounds=False, nuisance=False, size="small",
                        alpha=0.1, fmt=ch(["c", "csc"]))
    alphas = sorted({float(ch([0.5, 0.2, 0.1, 0.03, 0.01])) for _ in range(3)}, reverse=True)
    over = dict(max_iter=lim, gradient_tol=max(tol, 1e-9))
    if kind == "path":
        over.update(alpha=alphas, alpha_search=True)
        a = run(sc, over)
        if a["outcome"] != "ok":
            return failed(sc, over, a)
        m = a["m"]
        pts = [dict(alpha=al, b=float(b), w=np.asarray(w, float)) for al, b, w in zip(alphas, m.intercept_path_, m.coef_path_)]
        nwarn = a["nwarn"]
    else:
        import glum

        fa, _ = gen.family(sc["fam"])
        la, _ = gen.link(sc["link"], sc["fam"])
        kw = {k: v for k, v in sc["est"].items() if k not in ("alpha",)}
        kw.update(over)
        m = glum.GeneralizedLinearRegressorCV(family=fa, link=la, alphas=alphas, cv=2, **kw)
        with Quiet() as q, np.errstate(all="ignore"):
            try:
                m.fit(gen.to_format(sc["X"], sc["fmt"]), sc["y"], sample_weight=sc["s"], offset=sc["off"])
            except Exception:
                return None
        if any(n == "ConvergenceWarning" for n in q.names):
            return None
        nwarn = 0
        pts = [dict(alpha=float(m.alpha_), b=float(m.intercept_), w=np.asarray(m.coef_, float))]
    if not all(np.isfinite(q["w"]).all() for q in pts):
        return None
    r = base(sc, over, "path")
    r.update(points=pts, nwarn=nwarn, norm="max" if solver == "lbfgs" else "l1")
    return dict(rec=r, desc=fitrun.describe(dict(sc, est={**sc["est"], **over})), beh=kind)
