"""Multiplier certificates for fits under linear inequality constraints (IneqTrace)."""
import numpy as np

import fitrun
import gen

FAMS = [("normal", "auto"), ("poisson", "auto"), ("gamma", "log"), ("binomial", "auto"),
        ("normal", "auto"), ("tweedie:1.5", "auto"), ("negbin", "auto"), ("gamma", "log")]


def certificate(rec):
    """multipliers making gradient + A'lam and lam*slack small (non-negative least squares)"""
    from scipy.optimize import nnls

    X, y, A, b = (np.asarray(rec[k], float) for k in ("X", "y", "A", "bi"))
    n, p = X.shape
    s = np.ones(n) * (1.0 if rec["sk"] == "none" else rec["s"])
    off = np.zeros(n) + (0.0 if rec["ok"] == "none" else rec["off"])
    w, b0 = np.asarray(rec["w"], float), rec["b"]
    f, lk = rec["fam"], rec["link"]
    eta = X @ w + b0 + off
    mu, d = {"identity": (eta, np.ones(n)), "log": (np.exp(eta), np.exp(eta)),
             "logit": (1 / (1 + np.exp(-eta)), None)}[lk["name"]]
    if d is None:
        d = mu * (1 - mu)
    v = {"normal": lambda m: np.ones(n), "poisson": lambda m: m, "gamma": lambda m: m**2,
         "binomial": lambda m: m * (1 - m), "tweedie": lambda m: m ** f["p"],
         "negbin": lambda m: m + f["theta"] * m**2}[f["name"]](mu)
    r = -(s / s.sum()) * (y - mu) * d / v
    wm = (s @ X) / s.sum()
    sd = np.sqrt(np.maximum((s @ (X - wm) ** 2) / s.sum(), 0))
    sd[sd < 1.49e-7] = 1.0
    al = rec["alpha"] * (1 - rec["l1"])
    c = sd if rec["scale"] else np.ones(p)
    P2 = {"identity": lambda: np.eye(p), "none": lambda: np.eye(p),
          "vec": lambda: np.diag(rec["P2"]), "mat": lambda: (rec["P2"] + rec["P2"].T) / 2}[
              rec["p2kind"]]()
    g = r @ X + al * c * (P2 @ (c * w))
    unit = sd if rec["scale"] else np.maximum(sd, 1.0)
    h = 1.0 / (unit + (np.abs(wm) if rec["fi"] else 0.0))
    slack = np.maximum(b - A @ w, 0.0)
    lam, _ = nnls(np.vstack([h[:, None] * A.T, np.diag(slack) * rec["tol"] / rec["ctol"]]),
                  np.concatenate([-h * g, np.zeros(len(b))]), maxiter=2000)
    return lam


def finish_record(rec, A, b, solver, mk="none", cols=(), mono=()):
    rec.update(A=np.asarray(A, float), bi=np.asarray(b, float), mk=mk, cols=list(cols),
               mono=list(mono), ftol=1.001e-6, ctol=2e-6)
    rec["tol"] = 3e-4 if solver == "trust-constr" else 1.01e-5
    if solver == "trust-constr":
        rec["ctol"] = 5e-3
    rec["lam"] = np.zeros(len(b))
    if rec["outcome"] == "ok" and rec["conv"] and np.all(np.isfinite(rec["w"])):
        with np.errstate(all="ignore"):
            rec["lam"] = certificate(rec)
    return rec


# ------------------------------------------------------------------ explicit inequality rows
def draw_ineq(rng, **kw):
    ch = lambda s: s[rng.integers(len(s))]
    solver = ch(["trust-constr", "auto", "irls-ls-monotonic", "irls-ls-monotonic", "irls-ls-monotonic"])
    p = int(rng.integers(1, 6))
    fam, lk = ch(FAMS)
    if solver != "irls-ls-monotonic":
        fam, lk = ch(FAMS[:2] + FAMS[3:5])
    mild = ["norm", "norm", "bin", "unif", "int", "shift"]
    kinds = [ch(mild) for _ in range(p)]
    sc = fitrun.problem(rng, combo=(fam, lk), n=int(rng.integers(5 * p + 10, 5 * p + 30)), p=p,
                        l1=0.0, bounds=False, solver="irls-ls", alpha=ch([0.0, 0.01, 0.1, 1.0, None]),
                        tol=1e-5, size="small", kinds=kinds, nuisance=False, **kw,
                        pen=ch(["id", "p2v", "p2m", "none"]))
    if sc["est"]["alpha"] in (0.01, 0.1, 1.0) and np.ndim(sc["est"].get("P2")) < 2 \
            and p > 1 and rng.random() < 0.2:
        sc["X"][:, rng.integers(p)] = 1.75  # constraints on the coefficient of a constant column
    m = int(rng.integers(1, p + 2))
    kind = ch(["sign", "order", "random", "mixed"])
    if kind == "sign":
        A = np.diag(rng.choice([-1.0, 1.0], p))
    elif kind == "order" and p > 1:
        A = np.zeros((p - 1, p))
        for k in range(p - 1):
            A[k, k], A[k, k + 1] = 1.0, -1.0
        A *= ch([-1.0, 1.0])
    else:
        A = np.round(rng.normal(size=(m, p)), 1)
        A[0, 0] = A[0, 0] or 1.0
    b = np.zeros(len(A))
    e = sc["est"]
    e.pop("start_params", None)
    e.pop("hessian_approx", None)
    if solver == "trust-constr" or (solver == "auto"):
        if rng.random() < 0.7:
            b = np.round(rng.uniform(-0.1, 0.5, len(A)), 2)
        if kind in ("random", "mixed"):
            b = np.abs(b)  # feasible at zero
        e.update(gradient_tol=None, max_iter=3000)
    e.update(solver=solver, A_ineq=A, b_ineq=b, max_iter=max(300, e["max_iter"]))
    if rng.random() < 0.3:
        e["A_ineq"], e["b_ineq"] = A.tolist(), b.tolist()
    sc["cv"] = bool(rng.random() < 0.12) and e["alpha"] not in (None, 0.0) and solver != "trust-constr"
    sc["path"] = bool(rng.random() < 0.12) and e["alpha"] not in (None, 0.0)
    return sc


def run_ineq(sc):
    e = sc["est"]
    model = None
    if sc["cv"]:
        import glum

        kw = {k: v for k, v in e.items() if k != "alpha"}
        model = glum.GeneralizedLinearRegressorCV(
            family=gen.family(sc["fam"])[0], link=gen.link(sc["link"], sc["fam"])[0],
            alphas=[e["alpha"], 1.5 * e["alpha"]], cv=3, **kw)
    elif sc["path"]:
        model = fitrun.estimator(sc, alpha=[2 * e["alpha"], e["alpha"]], alpha_search=True)
    with np.errstate(all="ignore"):
        rec = fitrun.run_fit(sc, model)
    if sc["cv"] and rec["outcome"] == "ok":
        rec["alpha"], rec["ak"] = float(model.alpha_), "given"
    solver = "trust-constr" if e["solver"] == "auto" else e["solver"]
    return finish_record(rec, e["A_ineq"], e["b_ineq"], solver)


def check(ck, rng, k, label, **kw):
    """solve k problems with inequality constraints; the specification judges the results"""
    from vlib import run_scenarios

    scs = [draw_ineq(rng, **kw) for _ in range(k)]
    lines = []
    for sc, r in zip(scs, run_scenarios(run_ineq, scs, timeout=200)):
        if r is None:
            continue
        what = fitrun.describe(sc)
        if "crash" in r:
            ck.violation(f"crash {r['crash']} [{what}]", sc)
            continue
        ck.count(label)
        if r["outcome"] == "ok" or sc["est"]["solver"] == "irls-ls-monotonic":
            lines.append((sc, r, what))
    for i, c in ck.trace("IneqTrace", [r for _, r, _ in lines], "IneqClauses", label=label):
        ck.violation(f"{c} [{lines[i][2]}]", {"scenario": lines[i][0], "record": lines[i][1]})
