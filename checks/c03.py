"""C03: the penalty that is applied is the documented one, however it is written."""
import numpy as np
import scipy.sparse as sps

import args
import fitrun
import moves
from vlib import TIER, Check, run_scenarios, start

start()
import pandas as pd  # noqa: E402

import glum  # noqa: E402

ck = Check("C03")
OPS = ["WriteP1", "WriteP2", "AsymP2", "SparseP2", "RescaleAlpha", "FoldL1Ratio", "PermuteCols", "ScaleCol",
       "Container", "Single", "Solver"]


def rejects():
    n, p = 30, 3
    rng = np.random.default_rng(3)
    X, y = rng.normal(size=(n, p)), rng.normal(size=n)

    def fit(**kw):
        return lambda: glum.GeneralizedLinearRegressor(**dict(dict(alpha=0.1, l1_ratio=0.5), **kw)).fit(X, y)

    out = []
    I = np.eye(p)
    neg = np.ones(p)
    neg[1] = -0.5
    nan = np.ones(p)
    nan[0] = np.nan
    for nm, v in [("ones", np.ones(p)), ("list", [1, 2.0, 0]), ("negative", neg), ("long", np.ones(p + 1)),
                  ("short", np.ones(p - 1)), ("two-dimensional", I), ("nan", nan), ("zeros", np.zeros(p))]:
        out.append(args.line("P1", nm, v, p, fit(P1=v)))
    indef = I.copy()
    indef[0, 1] = indef[1, 0] = 2.0
    for nm, v in [("ones", np.ones(p)), ("negative", neg), ("long", np.ones(p + 1)), ("matrix", I), ("zeros", np.zeros(p)),
                  ("rectangular", np.ones((p, p + 1))), ("nan", nan), ("big matrix", np.eye(p + 1))]:
        out.append(args.line("P2", nm, v, p, fit(P2=v)))
    out.append(args.line("P2", "indefinite matrix", indef, p, fit(P2=indef), neg=True))
    # penalties on differences have a null space; many columns make the penalty a large matrix
    for k in range(60):
        q = int(rng.integers(3, 12))
        d = np.diff(np.eye(q), axis=0, n=int(rng.integers(1, 3)))
        M = d.T @ d * rng.choice([1, 1e-2, 30.0])
        how = ["dense", "csc", "csr", "list"][rng.integers(4)]
        M = {"dense": M, "csc": sps.csc_matrix(M), "csr": sps.csr_matrix(M), "list": M.tolist()}[how]
        Z = (rng.normal(size=(n, q)) * rng.choice([1, 0.1, 0.01, 50.0], q)).astype(rng.choice(["f8", "f8", "f4"]))
        cls = glum.GeneralizedLinearRegressor(alpha=0.1, P2=M)
        if k % 8 == 0:
            cls = glum.GeneralizedLinearRegressorCV(alphas=[0.1, 0.01], P2=M, cv=2)
        out.append(args.plain("allowed", f"P2: {how} penalty of differences, {q} columns {Z.dtype}", lambda: cls.fit(Z, y)))
    q = 2010
    Z = sps.random(n, q, density=0.02, format="csc", random_state=0)
    d = sps.diags([np.ones(q), -np.ones(q - 1)], [0, 1]).tocsc()[:-1]
    half = sps.diags((np.arange(q) % 2).astype(float)).tocsc()
    E = sps.csc_matrix(([0.5, 0.5], ([0, q - 1], [q - 1, 0])), shape=(q, q))
    for nm, M, ok in [("identity", sps.eye(q).tocsc(), True), ("differences", (d.T @ d).tocsc(), True), ("half", half, True),
                      ("indefinite", (half + E).tocsc(), False), ("negative", (half - 0.01 * sps.eye(q)).tocsc(), False)]:
        m = glum.GeneralizedLinearRegressor(alpha=0.1, P2=M, solver="lbfgs", max_iter=2)
        out.append(args.plain("allowed" if ok else "forbidden", f"P2: large sparse matrix: {nm}", lambda: m.fit(Z, y)))
    for v in ("ident", "none", "1"):
        out.append(args.plain("forbidden", f"P1={v!r}", fit(P1=v)))
        out.append(args.plain("forbidden", f"P2={v!r}", fit(P2=v)))
    for v in (-0.1, 1.5, "a", None, [0.5]):
        out.append(args.plain("forbidden", f"l1_ratio={v!r}", fit(l1_ratio=v)))
    for v in (-1.0, "x"):
        out.append(args.plain("forbidden", f"alpha={v!r}", fit(alpha=v)))
    out.append(args.plain("allowed", "alpha=None", fit(alpha=None)))
    return out


def cat_frame(rng, n):
    """a frame with numeric and categorical columns, and the expansion of its columns"""
    L = int(rng.integers(2, 5))
    code = np.concatenate([np.arange(L), rng.integers(0, L, n - L)])
    cols = [("x", np.round(rng.normal(size=n), 3), None), ("c", code, L), ("z", np.round(2 * rng.normal(size=n), 3), None)]
    if rng.random() < 0.4:
        L2 = int(rng.integers(2, 4))
        cols.append(("d", np.concatenate([np.arange(L2), rng.integers(0, L2, n - L2)]), L2))
    cols = [cols[i] for i in rng.permutation(len(cols))]
    return cols


def cat_job(seed):
    """penalties per input column and per expanded column on a frame with categoricals"""
    rng = np.random.default_rng(seed)
    n = int(rng.integers(30, 45))
    cols = cat_frame(rng, n)
    drop = bool(rng.random() < 0.4)
    lvl = "abcdefgh"
    df = {}
    D, owner = [], []
    for k, (nm, v, L) in enumerate(cols):
        if L is None:
            df[nm] = v
            D.append(v)
            owner.append(k)
        else:
            df[nm] = pd.Categorical([lvl[i] for i in v], categories=list(lvl[:L]))
            for j in range(1 if drop else 0, L):
                D.append((v == j).astype(float))
                owner.append(k)
    if rng.random() < 0.25:
        import polars as pl

        frame = pl.DataFrame({k: (pl.Series(list(v)).cast(pl.Enum(list(v.categories)))
                                  if hasattr(v, "categories") else v) for k, v in df.items()})
    else:
        frame = pd.DataFrame(df)
    X = np.column_stack(D)
    K, p = len(cols), X.shape[1]
    owner = np.array(owner)
    fam, lk = [("normal", "auto"), ("poisson", "auto"), ("gamma", "log")][rng.integers(3)]
    import gen

    y = gen.response(rng, fam, lk, X, np.zeros(n))
    p1k = ["identity", "none", "col", "exp"][rng.integers(4)]
    p2k = ["identity", "none", "colvec", "expvec", "expmat"][rng.integers(5)]
    v1 = np.round(rng.uniform(0.2, 2, K), 2)
    e1 = np.round(rng.uniform(0.2, 2, p), 2)
    v2 = np.round(rng.uniform(0.2, 2, K), 2)
    e2 = np.round(rng.uniform(0.2, 2, p), 2)
    M = gen.psd(rng, p, few=False)
    passed1 = {"identity": "identity", "none": None, "col": v1, "exp": e1}[p1k]
    passed2 = {"identity": "identity", "none": None, "colvec": v2, "expvec": e2, "expmat": M}[p2k]
    if p1k in ("col", "exp") and rng.random() < 0.3:
        passed1 = passed1.tolist()
    if p2k in ("colvec", "expvec") and rng.random() < 0.3:
        passed2 = passed2.tolist()
    a = float(rng.choice([0.02, 0.1]))
    l1 = float(rng.choice([0.0, 0.5, 1.0]))
    est = dict(alpha=a, l1_ratio=l1, P1=passed1, P2=passed2, drop_first=drop, gradient_tol=1e-8, max_iter=500,
               fit_intercept=bool(rng.random() < 0.8), solver="auto")
    if est["fit_intercept"] and rng.random() < 0.3:
        est["scale_predictors"] = True
    sc = dict(X=X, y=y, s=None, off=None, fam=fam, link=lk, est=est, fmt="frame", tol=1e-8)
    m = fitrun.estimator(sc)
    out = []
    full1 = {"identity": "identity", "none": None, "col": v1[owner], "exp": e1}[p1k]
    full2 = {"identity": "identity", "none": None, "colvec": v2[owner], "expvec": e2, "expmat": M}[p2k]
    # the specification sees the explicit design and the penalty each of its columns must get
    rec = fitrun.base_record(dict(sc, est=dict(est, P1=full1, P2=full2)))
    rec["mustconv"] = True
    from vlib import Quiet

    with Quiet() as q, np.errstate(all="ignore"):
        try:
            m.fit(frame, y)
            rec.update(outcome="ok", b=float(m.intercept_), w=np.asarray(m.coef_, float))
        except Exception as ex:
            rec.update(outcome=f"{type(ex).__name__}: {str(ex)[:100]}", b=0.0, w=[])
    rec["conv"] = not any(c in fitrun.CONV for c in q.names)
    rec["what"] = f"levels {[c[2] for c in cols]} P1 {p1k} P2 {p2k} drop_first {drop} {fam} l1 {l1}"
    return rec


def one_round(rng):
    moves.check_chains(ck, rng, OPS, depth=2, k=450 if TIER == "quick" else 2500)
    # direct comparison with the documented objective
    scs = [fitrun.problem(rng, alpha=float(rng.choice([0.02, 0.1, 0.5])), l1=float(rng.choice([0.0, 0.3, 0.7, 1.0])),
                          pen=str(rng.choice(["p1", "p2v", "p2m", "both", "bothm", "none", "id"])), nuisance=False)
           for _ in range(500)]
    # quadratic penalties in the problems that are solved directly
    scs += [fitrun.problem(rng, combo=("normal", "identity"), alpha=float(rng.choice([0.1, 0.5])), l1=0.0, pen="p2m",
                           p=int(rng.integers(3, 9)), bounds=False, nuisance=False) for _ in range(150)]
    recs = run_scenarios(fitrun.run_fit, scs)
    lines = [(fitrun.describe(sc), r) for sc, r in zip(scs, recs)
             if "crash" not in r and (r["outcome"] == "ok" or r["mustconv"])]
    jobs = [int(rng.integers(1 << 40)) for _ in range(400)]
    for r in run_scenarios(cat_job, jobs):
        if "crash" in r:
            ck.violation(f"crashed: {r['crash']}", r)
        else:
            lines.append((r["what"], r))
    for i, c in ck.trace("FitTrace", [r for _, r in lines], "FitClauses"):
        ck.violation(f"{c} [{lines[i][0]}]", lines[i][1])
    args.check(ck, rejects())


ck.rounds(one_round)
ck.finish()
