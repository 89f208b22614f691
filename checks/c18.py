"""C18: every configuration is honoured or rejected, invalid values and data are rejected."""
import numpy as np

import args
import config
import gen
from vlib import TIER, Check, Quiet, run_scenarios, start

start()
ck = Check("C18")
cfgs = ck.generate("ConfigModel", "SPECIFICATION Spec\nINVARIANTS Honoured AutoComplete AutoRefuses Plain Monotone WrongIsRejected Emit\n"
                                  "CHECK_DEADLOCK FALSE\n")
hyper = ck.generate("HyperModel", "SPECIFICATION Spec\nINVARIANTS NaNNever ListsOnlyWhereMeant Total Emit\n"
                                  "CHECK_DEADLOCK FALSE\n")

# ------------------------------------------------------------------ hyper-parameter values
VAL = dict(neg=-1, zero=0, half=0.5, one=1, onehalf=1.5, three=3, nan=np.nan, inf=np.inf, none=None, true=True,
           str="abc", cplx=1j, list=[0.1, 0.2], empty=[], nested=[[0.1, 0.2]], nanlist=[0.1, np.nan],
           neglist=[0.1, -1], inflist=[0.1, np.inf], strlist=["a", "b"])


def attempt(m, X, y, **kw):
    out = dict(outcome="ok", msg=True)
    with Quiet(), np.errstate(all="ignore"):
        try:
            m.fit(X, y, **kw)
        except Exception as ex:
            out.update(outcome=args.exname(ex), msg=bool(str(ex).strip()))
    out["fitted"] = hasattr(m, "coef_")
    return out


def hyper_job(item):
    import glum

    h, seed = item
    rng = np.random.default_rng(seed)
    n = int(rng.integers(30, 50))
    X, y, _, _ = config.data(dict(fam="poisson"), rng)
    if h["par"] in ("solver", "selection", "lower_bounds", "upper_bounds", "max_inner_iter", "l1_ratio") or rng.random() < 0.5:
        l1, solver = 0.5, "auto"
    else:
        l1, solver = 0.0, str(rng.choice(["auto", "irls-cd", "irls-ls", "lbfgs"]))
    kw = dict(family="poisson", l1_ratio=l1, solver=solver, max_iter=50)
    if h["ctx"] == "cv":
        cls = glum.GeneralizedLinearRegressorCV
        kw.update(alphas=[0.1, 0.2] if h["par"] not in ("n_alphas", "min_alpha", "min_alpha_ratio") else None, cv=3, n_alphas=3)
    else:
        cls = glum.GeneralizedLinearRegressor
        kw["alpha"] = 0.1
        if h["ctx"] == "search":
            kw.update(alpha_search=True, alpha=None, n_alphas=3)
    if h["par"] in ("A_ineq", "b_ineq"):
        kw.update(l1_ratio=0.0, solver="auto", A_ineq=np.eye(3)[:2], b_ineq=np.zeros(2))
        if h["val"] == "none":
            kw.update(A_ineq=None, b_ineq=None)
    if h["par"] == "b_ineq" and h["val"] in ("list", "neglist", "inflist"):
        kw["A_ineq"] = np.eye(3)  # the right-hand side has another length
    kw[h["par"]] = VAL[h["val"]]
    try:
        m = cls(**kw)
    except Exception as ex:
        r = dict(outcome=args.exname(ex), msg=bool(str(ex).strip()), fitted=False)
    else:
        r = attempt(m, X, y)
    return dict(kind="hyper", par=h["par"], val=h["val"], ctx=h["ctx"], fam=gen.family("poisson")[1], yv=0.0, **r), \
        f"{h['par']}={VAL[h['val']]!r} {h['ctx']} solver={solver} l1={l1}"


# ------------------------------------------------------------------ responses
YF = ["normal", "poisson", "gamma", "invgauss", "binomial", "negbin", "negbin:0.5", "tweedie:0", "tweedie:1", "tweedie:1.5",
      "tweedie:2", "tweedie:3", "tweedie:2.5", "tweedie:1.01", "ghs"]
YV = [-1.0, -1e-3, -1e-12, 0.0, 1e-3, 0.3, 1.0, 1.0 + 1e-9, 1.5, 3.0, 40.0, np.nan, np.inf, -np.inf]
SOLV = ["auto", "irls-cd", "irls-ls", "lbfgs"]


def y_job(item):
    import glum

    f, v, cv, fmt, seed = item
    rng = np.random.default_rng(seed)
    n = 60
    X = np.round(rng.normal(size=(n, 2)), 3)
    y = gen.response(rng, f, "auto", X, None)
    w = np.round(rng.uniform(0.5, 2, n), 2) if rng.random() < 0.5 else None
    y[int(rng.integers(n))] = v
    kw = dict(family=gen.family(f)[0], l1_ratio=0.0, solver=str(rng.choice(SOLV)), max_iter=100)
    if cv:
        m = glum.GeneralizedLinearRegressorCV(alphas=[0.5, 1.0], cv=3, **kw)
    else:
        m = glum.GeneralizedLinearRegressor(alpha=0.5, **kw)
    yy = {"array": y, "list": y.tolist(), "f32": y.astype(np.float32)}[str(rng.choice(["array", "list", "array"]))]
    r = attempt(m, gen.to_format(X, fmt), yy, sample_weight=w)
    return dict(kind="y", par="", val="", ctx="", fam=gen.family(f)[1], yv=v, **r), f"y={v} {f} cv={cv} fmt={fmt} {kw['solver']}"


# ------------------------------------------------------------------ data of the wrong form
def data_job(item):
    import glum

    cv, fmt, fam, seed = item
    rng = np.random.default_rng(seed)
    n, p = int(rng.integers(30, 40)), 3
    X = np.round(rng.normal(size=(n, p)), 3)
    y = rng.poisson(np.exp(0.2 * X[:, 0])) + 1.0
    solver = str(rng.choice(SOLV))
    kw = dict(family=fam, l1_ratio=0.0, solver=solver, max_iter=100)

    def fit(X_=X, y_=y, w=None, o=None, conv=True, **over):
        def f():
            k = {**kw, **over}
            m = glum.GeneralizedLinearRegressorCV(alphas=[0.5], cv=3, **k) if cv else \
                glum.GeneralizedLinearRegressor(alpha=0.5, **k)
            try:
                m.fit(gen.to_format(X_, fmt) if conv else X_, y_, sample_weight=w, offset=o)
            except BaseException:
                if hasattr(m, "coef_"):
                    raise RuntimeError("results were set although the data were rejected")
                raise
        return f

    out = [args.plain("allowed", "plain", fit())]
    for v in (np.nan, np.inf, -np.inf):
        Z = X.copy()
        Z[int(rng.integers(n)), int(rng.integers(p))] = v
        out.append(args.plain("forbidden", f"X with {v}", fit(Z)))
    for what, yy in [("y longer", np.append(y, 1.0)), ("y shorter", y[:-1]), ("y two columns", np.column_stack([y, y])),
                     ("y None", None), ("y scalar", 1.0), ("y words", np.array(["a"] * n)), ("y empty", y[:0])]:
        out.append(args.plain("forbidden", what, fit(y_=yy)))
    for what, XX in [("X one-dimensional", X[:, 0]), ("X three-dimensional", X[:, :, None]), ("X scalar", 1.0), ("X None", None),
                     ("X without rows", X[:0]), ("X without columns", X[:, :0]), ("X of words", np.full((n, p), "a")),
                     ("X complex", X + 0j)]:
        out.append(args.plain("forbidden", what, fit(XX, conv=False)))
    out += args.weight_lines(n, lambda w: fit(w=w)())
    out += args.offset_lines(n, lambda o: fit(o=o)())
    ones = np.ones(p)
    for what, v in [("short", ones[:-1]), ("long", np.ones(p + 1)), ("negative", np.array([1, -1e-9, 1])), ("nan", np.array([1, np.nan, 1])),
                    ("matrix", np.eye(p)), ("good", ones), ("list", [1, 0, 2])]:
        bad = what not in ("good", "list")
        out.append(args.plain("forbidden" if bad else "allowed", f"P1 {what}", fit(P1=v)))
    asym = np.array([[1.0, 3.0, 0], [0, 1.0, 0], [0, 0, 1]])   # symmetric part is indefinite
    for what, v in [("short", ones[:-1]), ("long", np.ones(p + 1)), ("negative", np.array([1, -1.0, 1])), ("nan", np.array([1, np.nan, 1])),
                    ("wide", np.ones((p, p + 1))), ("small", np.eye(p - 1)), ("indefinite", np.diag([1.0, -1.0, 1.0])),
                    ("asymmetric indefinite", asym), ("good", ones), ("good matrix", np.eye(p)), ("list", [1, 0, 2])]:
        bad = what not in ("good", "good matrix", "list")
        out.append(args.plain("forbidden" if bad else "allowed", f"P2 {what}", fit(P2=v)))
    for nm in ("lower_bounds", "upper_bounds"):
        sg = -1.0 if nm[0] == "l" else 1.0
        for what, v in [("short", sg * ones[:-1]), ("long", sg * np.ones(p + 1)), ("matrix", sg * np.eye(p)),
                        ("nan", np.array([sg, np.nan, sg])), ("good", sg * ones), ("list", [sg, 0, sg])]:
            bad = what not in ("good", "list")
            out.append(args.plain("forbidden" if bad else "allowed", f"{nm} {what}", fit(solver="auto", **{nm: v})))
    out.append(args.plain("forbidden", "crossed bounds", fit(solver="auto", lower_bounds=ones, upper_bounds=-ones)))
    out.append(args.plain("forbidden", "one crossed bound", fit(solver="auto", lower_bounds=np.array([-1, 0.1, -1]), upper_bounds=np.array([1, 0.05, 1.0]))))
    out.append(args.plain("allowed", "equal bounds", fit(solver="auto", lower_bounds=np.zeros(p), upper_bounds=np.zeros(p))))
    for what, A, b in [("columns", np.eye(p + 1), np.zeros(p + 1)), ("rows", np.eye(p), np.zeros(p - 1)), ("matrix rhs", np.eye(p), np.eye(p)),
                       ("nan", np.diag([1, np.nan, 1]), np.zeros(p)), ("nan rhs", np.eye(p), np.array([0, np.nan, 0])),
                       ("vector", np.ones(p), np.zeros(1)), ("one rhs", -np.eye(p), np.zeros(1)), ("narrow", -np.eye(p)[:, :1], np.zeros(p)),
                       ("one rhs for two", -np.eye(p)[:2], np.zeros(1)), ("good", -np.eye(p), np.zeros(p))]:
        for s in ("irls-ls-monotonic", "trust-constr"):
            out.append(args.plain("forbidden" if what != "good" else "allowed", f"inequalities {what} {s}", fit(solver=s, A_ineq=A, b_ineq=b)))
    for k in (p, p + 2, 1):
        out.append(args.plain("forbidden", f"start_params of length {k}", fit(start_params=np.zeros(k))))
    out.append(args.plain("forbidden", "start_params matrix", fit(start_params=np.zeros((p + 1, p + 1)))))
    out.append(args.plain("forbidden", "start_params nan", fit(start_params=np.array([0, 0, np.nan, 0]))))
    out.append(args.plain("allowed", "start_params", fit(start_params=np.array([0.5, 0, 0, 0]))))
    return out, f"cv={cv} fmt={fmt} {fam} {solver}"


def one_round(rng):
    seed = lambda: int(rng.integers(1 << 40))
    # --- configurations
    order = rng.permutation(len(cfgs))
    solve = [i for i in order if cfgs[i]["verdict"] != "reject"]
    once = [i for i in order if len(cfgs[i]["wrong"]) == 1]  # nothing else can be the reason for the rejection
    more = [i for i in order if len(cfgs[i]["wrong"]) > 1]
    k = 1 if TIER == "quick" else 4
    order = solve[:3500 * k] + once[:6000 * k] + more[:500 * k]
    items = [(cfgs[i], seed()) for i in order]
    lines, fits, iqs, conv, done = [], [], [], 0, 0
    for (c, sd), r in zip(items, run_scenarios(config.job, items, timeout=200)):
        w = config.describe(c)
        if r is None:
            ck.count("diverged_inside_optimizer")
            continue
        if "crash" in r:
            ck.violation(f"crash {r['crash']} [{w}]", c)
            continue
        lines.append((r["line"], w, sd))
        fits += [(x, w, sd) for x in r["fits"]]
        iqs += [(x, w, sd) for x in r["iq"]]
        if r["line"]["outcome"] == "ok":
            done += 1
            conv += r["conv"]
        ck.count(f"verdict_{c['verdict']}")
    for label, mod, verdict, recs in [("configurations", "ConfigTrace", "ConfigClauses", lines),
                                      ("solved", "FitTrace", "FitClauses", fits),
                                      ("solved with constraints", "IneqTrace", "IneqClauses", iqs)]:
        for i, c in ck.trace(mod, [x for x, _, _ in recs], verdict, label=label):
            ck.violation(f"{c} [{recs[i][1]} seed={recs[i][2]}]", recs[i][0])
    ck.count("solved_configurations", done)
    ck.count("solved_and_converged", conv)
    if conv < 0.9 * done:
        ck.violation(f"only {conv} of {done} configurations converged", {})
    # --- hyper-parameters and responses
    hs = [(h, seed()) for h in hyper]
    fm = ["c", "f", "csc", "df", "tm-dense", "polars"]
    ys = [(f, v, bool(rng.random() < 0.3), fm[rng.integers(len(fm))], seed()) for f in YF for v in YV
          for _ in range(3 if TIER == "quick" else 10)]
    recs = []
    for job, its in ((hyper_job, hs), (y_job, ys)):
        for it, r in zip(its, run_scenarios(job, its)):
            if isinstance(r, dict):
                ck.violation(f"crash {r['crash']} {it}", r)
            else:
                recs.append(r)
    for i, c in ck.trace("HyperTrace", [r for r, _ in recs], "HyperClauses"):
        ck.violation(f"{c} [{recs[i][1]}]", recs[i][0])
    # --- data
    its = [(cv, fmt, fam, seed()) for cv in (False, True) for fmt in ("c", "csc", "df", "tm-dense", "polars", "csr", "tm-split", "list")
           for fam in ("poisson", "normal", "gamma")]
    if TIER == "quick":
        its = [its[i] for i in rng.permutation(len(its))[:16]]
    al = []
    for it, r in zip(its, run_scenarios(data_job, its)):
        if isinstance(r, dict):
            ck.violation(f"crash {r['crash']} {it}", r)
        else:
            al += [dict(x, what=f"{x['what']} [{r[1]}]") for x in r[0]]
    args.check(ck, al)
    for c, _ in zip(cfgs, range(2)):
        ck.sample(config.describe(c))


ck.rounds(one_round)
ck.finish()
