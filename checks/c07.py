"""C07: results do not depend on how the same data is represented."""
import numpy as np

import fitrun
import gen
import moves
import preds
from vlib import TIER, Check, Quiet, run_scenarios, start

start()
import pandas as pd  # noqa: E402
import polars as pl  # noqa: E402

import glum  # noqa: E402

ck = Check("C07")
OPS = ["Container", "Single", "PermuteRows", "PermuteCols", "Solver", "SpreadOffset", "OnesWeights"]
XF = ["f", "nc", "list", "csc", "csr", "coo", "csc_array", "tm-dense", "tm-sparse", "tm-split", "df", "polars", "f32",
      "csr_array", "csr32", "f32f", "df32", "dfsparse", "arrow", "csc64", "split32",
      "csc-unsorted", "csr-unsorted", "csc-dup", "csr-dup", "coo-dup", "csc-zeros", "lil", "dok", "dia", "bsr", "bigendian", "longdouble",
      "object", "masked", "nullable", "tm-dup"]
XI = ["int", "int32", "dfint", "cscint", "listint", "int8", "polarsint"]
VF = ["list", "series", "reindexed", "polars", "f32", "strided", "readonly", "bigendian", "object", "nullable", "tuple", "reversed",
      "whole", "truth"]


def scattered(M, dup, unsorted):
    """the same matrix with entries split into a sum, and with entries not in order"""
    M = M.copy()
    if dup:
        M = type(M)((np.repeat(M.data / 2, 2), np.repeat(M.indices, 2), M.indptr * 2), shape=M.shape)
    if unsorted:
        for j in range(len(M.indptr) - 1):
            s = slice(M.indptr[j], M.indptr[j + 1])
            M.indices[s], M.data[s] = M.indices[s][::-1].copy(), M.data[s][::-1].copy()
    return type(M)((M.data, M.indices, M.indptr), shape=M.shape)



def xfmt(X, fmt):
    import scipy.sparse as sps

    if fmt in ("csc-unsorted", "csr-unsorted", "csc-dup", "csr-dup", "tm-dup"):
        M = scattered((sps.csr_matrix if fmt[:3] == "csr" else sps.csc_matrix)(X), "dup" in fmt, "unsorted" in fmt)
        if fmt == "tm-dup":
            import tabmat as tm

            return tm.SparseMatrix(M)
        return M
    if fmt == "coo-dup":
        r, c = np.nonzero(X)
        return sps.coo_matrix((np.r_[X[r, c] / 2, X[r, c] / 2], (np.r_[r, r], np.r_[c, c])), shape=X.shape)
    if fmt == "csc-zeros":
        n, p = X.shape
        return sps.csc_matrix((X.T.ravel().copy(), np.tile(np.arange(n), p), np.arange(p + 1) * n), shape=X.shape)
    if fmt in ("lil", "dok", "dia", "bsr"):
        return getattr(sps, fmt + "_matrix")(X)
    if fmt == "bigendian":
        return X.astype(">f8")
    if fmt == "longdouble":
        return X.astype(np.longdouble)
    if fmt == "object":
        return X.astype(object)
    if fmt == "masked":
        return np.ma.array(X)
    if fmt == "nullable":
        return pd.DataFrame(X, columns=[f"v{j}" for j in range(X.shape[1])]).astype("Float64")
    if fmt == "csr_array":
        return sps.csr_array(X)
    if fmt == "csr32":
        return sps.csr_matrix(X.astype(np.float32))
    if fmt == "csc64":
        M = sps.csc_matrix(X)
        M.indices, M.indptr = M.indices.astype(np.int64), M.indptr.astype(np.int64)
        return M
    if fmt == "f32f":
        return np.asfortranarray(X.astype(np.float32))
    if fmt == "df32":
        return pd.DataFrame(X.astype(np.float32), columns=[f"v{j}" for j in range(X.shape[1])])
    if fmt == "dfsparse":
        return pd.DataFrame({f"v{j}": pd.arrays.SparseArray(X[:, j]) for j in range(X.shape[1])})
    if fmt == "arrow":
        return pd.DataFrame({f"v{j}": X[:, j] for j in range(X.shape[1])}, index=np.arange(len(X))[::-1] * 3)
    if fmt == "split32":
        import tabmat as tm

        h = X.shape[1] // 2
        return tm.SplitMatrix([tm.DenseMatrix(np.asfortranarray(X[:, :h].astype(np.float32))),
                               tm.SparseMatrix(sps.csc_matrix(X[:, h:].astype(np.float32)))]) if h else X.astype(np.float32)
    if fmt == "int32":
        return X.astype(np.int32)
    if fmt == "int8":
        return X.astype(np.int8)
    if fmt == "dfint":
        return pd.DataFrame(X.astype(int), columns=[f"v{j}" for j in range(X.shape[1])])
    if fmt == "polarsint":
        return pl.DataFrame({f"v{j}": X[:, j].astype(int) for j in range(X.shape[1])})
    if fmt == "cscint":
        return sps.csc_matrix(X.astype(int))
    if fmt == "listint":
        return X.astype(int).tolist()
    return gen.to_format(X, fmt)


def vfmt(v, fmt):
    if v is None or np.ndim(v) == 0:
        return v
    if fmt == "list":
        return v.tolist()
    if fmt == "series":
        return pd.Series(v)
    if fmt == "reindexed":
        return pd.Series(v, index=np.arange(len(v))[::-1] + 7)
    if fmt == "polars":
        return pl.Series(v)
    if fmt == "f32":
        return v.astype(np.float32)
    if fmt == "strided":
        z = np.zeros(2 * len(v))
        z[::2] = v
        return z[::2]
    if fmt == "whole":  # integers or truth values, where that is what the numbers are
        return v.astype(np.int16) if (v == np.round(v)).all() else v
    if fmt == "truth":
        return v.astype(bool) if np.isin(v, (0, 1)).all() else v
    if fmt == "bigendian":
        return v.astype(">f8")
    if fmt == "object":
        return v.astype(object)
    if fmt == "nullable":
        return pd.Series(v, dtype="Float64")
    if fmt == "tuple":
        return tuple(v.tolist())
    if fmt == "reversed":
        return v[::-1].copy()[::-1]
    if fmt == "readonly":
        z = v.copy()
        z.flags.writeable = False
        return z
    return v


def everything(sc, X, y, s, off, Xq):
    """all numbers a user can get from a fit"""
    cv = sc.get("cv")
    m = fitrun.estimator(sc)
    m.fit(X, y, sample_weight=s, offset=off)
    out = {"coef": np.append(m.coef_, m.intercept_)}
    out["predict"] = m.predict(Xq, offset=off)
    out["wpredict"] = m.predict(Xq, sample_weight=s, offset=off)
    out["score"] = [m.score(Xq, y, sample_weight=s, offset=off)]
    for nm, kw in (("se", {}), ("se_nr", dict(robust=False)),
                   ("se_ei", dict(robust=False, expected_information=True)), ("se_rei", dict(expected_information=True)),
                   ("se_cl", dict(clusters=np.arange(len(sc["y"])) % 5))):
        out[nm] = m.std_errors(Xq, y, sample_weight=s, offset=off, **kw)
    if sc["fam"] in ("poisson", "gamma", "binomial", "normal") and off is None:
        out["ic"] = [m.aic(Xq, y, sample_weight=s), m.bic(Xq, y, sample_weight=s)]
    return {k: np.asarray(v, float).reshape(-1) for k, v in out.items()}


def job(seed):
    rng = np.random.default_rng(seed)
    f = dict(fi=bool(rng.random() < 0.8), scale=False, pen=str(rng.choice(["zero", "ridge", "enet"])), bnd=False,
             w=str(rng.choice(["none", "unif", "int", "scalar"])), o=str(rng.choice(["none", "vec", "scalar"])))
    f["scale"] = bool(f["fi"] and rng.random() < 0.3)
    sc = moves.base(rng, f)
    ints = rng.random() < 0.3
    if ints:
        p = sc["X"].shape[1]
        sc["X"] = np.round(3 * rng.normal(size=sc["X"].shape))
        while np.linalg.cond(sc["X"]) > 10:
            sc["X"] = np.round(3 * rng.normal(size=sc["X"].shape))
        sc["est"]["start_params"] = None
        if sc["fam"] != "binomial":
            mu = np.exp(0.05 * sc["X"].sum(1))
            sc["y"] = np.round(rng.gamma(4, mu / 4) + 0.05, 3)
    # numbers that are exact in single precision, so that both precisions see the same data
    q = lambda v: v if v is None else np.asarray(v, np.float32).astype(float) if np.ndim(v) else float(np.float32(v))
    sc["X"], sc["y"], sc["s"], sc["off"] = q(sc["X"]), q(sc["y"]), q(sc["s"]), q(sc["off"])
    sc["est"]["gradient_tol"] = 1e-9
    fx = str(rng.choice(XI if ints else XF))
    fq = str(rng.choice(XI if ints else [f for f in XF if f != "longdouble"]))
    fy, fs, fo = (str(rng.choice(["plain"] + VF)) for _ in range(3))
    what = f"X={fx} queried as {fq} y={fy} weights={fs} offset={fo} {fitrun.describe(sc)}"
    sq = rng.random() < 0.5
    single = fx in ("f32", "f32f", "csr32", "df32", "split32")
    singleq = fq in ("f32", "f32f", "csr32", "df32", "split32")
    lines = []
    with Quiet(), np.errstate(all="ignore"):
        ref = everything(sc, sc["X"], sc["y"], sc["s"], sc["off"], sc["X"])
        sc2 = dict(sc, est=dict(sc["est"]))
        if single:
            sc2["est"]["gradient_tol"] = None
        try:
            got = everything(sc2, xfmt(sc["X"], fx), vfmt(sc["y"], fy), vfmt(sc["s"], fs), vfmt(sc["off"], fo),
                             xfmt(sc["X"], fq))
        except Exception as e:
            import traceback
            return [dict(kind="same", a=[0.0], b=[1.0], rtol=0.0, what=f"{type(e).__name__}: {str(e)[:150]} with {what}",
                         tb=traceback.format_exc()[-1500:])]
    sdx = np.append(np.where(sc["X"].std(0) > 0, sc["X"].std(0), 1), 1.0)
    for k in ref:
        a, b = got.get(k, np.zeros(0)), ref[k]
        if k == "coef":
            # the intercept is as uncertain as the largest product of a coefficient and a column
            a, b = a * sdx, b * sdx
            if len(a):
                m = 1 + np.abs(sc["X"]).max() / sdx[:-1].min()
                a, b = np.append(a[:-1], a[-1] / m), np.append(b[:-1], b[-1] / m)
        tol = 5e-6
        if single or singleq:
            tol = 5e-3 if k in ("coef", "predict", "wpredict") else 2e-2
        lines.append(dict(kind="same", a=a, b=b, rtol=tol, what=f"{k}: {what}"))
    return lines


def cv_job(seed):
    rng = np.random.default_rng(seed)
    sc = moves.base(rng, dict(fi=True, scale=False, pen="ridge", bnd=False, w=str(rng.choice(["none", "unif"])), o="none"))
    def run(X, y, s):
        fa, _ = gen.family(sc["fam"])
        la, _ = gen.link(sc["link"], sc["fam"])
        m = glum.GeneralizedLinearRegressorCV(family=fa, link=la, l1_ratio=[0.0, 0.5], n_alphas=4, min_alpha_ratio=1e-2,
                                              cv=3, gradient_tol=1e-9)
        m.fit(X, y, sample_weight=s)
        return np.concatenate([np.ravel(m.coef_ * sc["X"].std(0)), np.ravel(m.deviance_path_), np.ravel(m.alphas_),
                               [m.alpha_, m.l1_ratio_], m.predict(X)]).astype(float)
    fx = str(rng.choice([f for f in XF if "32" not in f]))
    with Quiet(), np.errstate(all="ignore"):
        try:
            a = run(xfmt(sc["X"], fx), vfmt(sc["y"], "list"), vfmt(sc["s"], "series"))
            b = run(sc["X"], sc["y"], sc["s"])
        except Exception as e:
            return [dict(kind="same", a=[0.0], b=[1.0], rtol=0.0, what=f"CV {fx}: {type(e).__name__}: {str(e)[:150]}")]
    return [dict(kind="same", a=a, b=b, rtol=2e-5, what=f"CV as {fx} {fitrun.describe(sc)}")]


def one_round(rng):
    k = 1 if TIER == "quick" else 3
    moves.check_chains(ck, rng, OPS, depth=2, k=300 * k)
    lines = []
    for fn, m in ((job, 500 * k), (cv_job, 30 * k)):
        seeds = [int(rng.integers(1 << 40)) for _ in range(m)]
        for sd, r in zip(seeds, run_scenarios(fn, seeds)):
            if isinstance(r, dict):
                ck.violation(f"{fn.__name__}: {r['crash']}", {"seed": sd, "tb": r.get("tb")})
            else:
                lines += r
    ck.count("comparisons", len(lines))
    for i, c in ck.trace("PredTrace", lines, "PredClauses"):
        ck.violation(f"{c} [{lines[i]['what']}]", lines[i])
    preds.check(ck, rng, 60)


ck.rounds(one_round)
ck.notes += ["single precision is compared with data that is exact in single precision, to 5e-3 for estimates and "
             "2e-2 for standard errors, scores and information criteria"]
ck.finish()
