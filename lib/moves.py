"""Carry out chains of problem transformations (Moves.tla) on the real library."""
import copy

import numpy as np
import scipy.sparse as sps

import fitrun
import gen
from vlib import Quiet

COMBOS = [("normal", "auto"), ("poisson", "auto"), ("gamma", "log"), ("binomial", "logit"),
          ("tweedie", "auto"), ("negbin", "auto"), ("tweedie:1.25", "log"), ("binomial", "auto")]
LOGS = [("poisson", "auto"), ("gamma", "log"), ("tweedie", "auto"), ("tweedie:1.25", "log"), ("poisson", "log"), ("gamma", "auto")]
ALPHA = {"zero": (0.0, 0.0), "ridge": (0.1, 0.0), "enet": (0.08, 0.5), "lasso": (0.05, 1.0)}


def base(rng, f, combo=None):
    """a well-posed problem with the features of a state of Moves"""
    combo = combo or {"location": ("normal", "auto"), "logit": ("binomial", "logit"), "log": LOGS[rng.integers(len(LOGS))]}.get(f.get("k"))
    fam, lk = combo or COMBOS[rng.integers(len(COMBOS))]
    p = int(rng.choice([2, 3, 3, 4]))
    n = int(rng.integers(7 * p, 7 * p + 10))
    kinds = [rng.choice(["norm", "norm", "big", "shift", "small", "sparse", "unif"]) for _ in range(p)]
    for _ in range(50):
        X, kinds = gen.design(rng, n, p, kinds)
        sd = X.std(axis=0)
        if sd.min() > 0 and np.linalg.cond((X - X.mean(0)) / sd) < 6 and (
                f["fi"] or np.linalg.cond(X / np.sqrt((X ** 2).mean(0))) < 12):
            break
        if not f["fi"]:
            kinds = [rng.choice(["norm", "big", "small"]) for _ in range(p)]
    off = {"none": None, "scalar": 0.25, "vec": np.round(rng.uniform(-0.5, 0.5, n), 3)}[f["o"]]
    offv = np.zeros(n) if off is None else np.broadcast_to(off, (n,)).astype(float)
    for _ in range(20):
        y = gen.response(rng, fam, lk, X, offv)
        s = gen.weights(rng, n, f["w"])
        pos = np.ones(n, bool) if s is None or np.ndim(s) == 0 else s > 0
        if gen.fam_base(fam) != "binomial":
            if len(np.unique(y[pos])) > 3:
                break
        else:
            y = np.round(np.clip(0.5 + 0.25 * rng.normal(size=n), 0.05, 0.95), 3)
            break
    if f["pen"] == "zero" and gen.fam_base(fam) in ("poisson", "negbin", "tweedie"):
        y = np.round(y + rng.uniform(0.2, 0.6, n), 3)  # the estimate is finite and well determined
    a, l1 = ALPHA[f["pen"]]
    est = dict(alpha=a, l1_ratio=l1, fit_intercept=f["fi"], scale_predictors=f["scale"],
               solver="auto", gradient_tol=1e-9, max_iter=500)
    if a and rng.random() < 0.6:
        est["P1"] = np.round(rng.uniform(0.3, 2.0, p), 2)
    if a and rng.random() < 0.6:
        est["P2"] = gen.psd(rng, p) if rng.random() < 0.5 else np.round(rng.uniform(0.3, 2.0, p), 2)
    if f["bnd"]:
        t = rng.integers(4)
        sdj = X.std(axis=0)
        lo = np.where(rng.random(p) < 0.7, np.round(rng.uniform(-0.3, 0.05, p) / sdj, 4), -np.inf)
        hi = np.where(rng.random(p) < 0.7, np.round(rng.uniform(0.06, 0.3, p) / sdj, 4), np.inf)
        if t == 0:
            est["lower_bounds"] = 0.0
        elif t == 1:
            est["lower_bounds"], est["upper_bounds"] = lo, hi
        elif t == 2:
            est["upper_bounds"] = hi
        else:
            est["lower_bounds"] = lo
    return dict(X=X, y=y, s=s, off=off, fam=fam, link=lk, est=est, fmt="c", kinds=list(kinds), tol=1e-9)


POWER = {"poisson": 1.0, "gamma": 2.0, "tweedie": 1.5, "tweedie:1.25": 1.25}


# ------------------------------------------------------------------ canonical arguments
def P1of(sc):
    v = sc["est"].get("P1", "identity")
    return np.ones(sc["X"].shape[1]) if v is None or isinstance(v, str) else np.array(v, float)


def P2of(sc):
    v = sc["est"].get("P2", "identity")
    if v is None or isinstance(v, str):
        return np.eye(sc["X"].shape[1])
    v = v.toarray() if sps.issparse(v) else np.array(v, float)
    return np.diag(v) if v.ndim == 1 else v


def bnd(sc, k):
    v = sc["est"].get(k)
    d = -np.inf if k == "lower_bounds" else np.inf
    return np.broadcast_to(np.asarray(d if v is None else v, float), (sc["X"].shape[1],)).copy()


def setb(sc, lo, hi):
    for k, v in (("lower_bounds", lo), ("upper_bounds", hi)):
        sc["est"].pop(k, None)
        if np.isfinite(v).any():
            sc["est"][k] = v


def wvec(sc):
    n = len(sc["y"])
    return np.ones(n) if sc["s"] is None else np.broadcast_to(np.asarray(sc["s"], float), (n,)).copy()


def ovec(sc):
    n = len(sc["y"])
    return np.zeros(n) if sc["off"] is None else np.broadcast_to(np.asarray(sc["off"], float), (n,)).copy()


def stds(sc):
    s, X = wvec(sc), sc["X"]
    m = s @ X / s.sum()
    d = np.sqrt(s @ (X - m) ** 2 / s.sum())
    return np.where(d < 1.49e-7, 1.0, d)


def rows(sc, ix):
    z = dict(sc)
    z["X"], z["y"] = sc["X"][ix], sc["y"][ix]
    if sc["s"] is not None and np.ndim(sc["s"]):
        z["s"] = sc["s"][ix]
    if sc["off"] is not None and np.ndim(sc["off"]):
        z["off"] = sc["off"][ix]
    return z


def valid_y(rng, sc, n):
    fb = gen.fam_base(sc["fam"])
    if fb == "binomial":
        return np.round(rng.random(n), 2)
    if fb == "normal":
        return np.round(50 * rng.normal(size=n), 2)
    return np.round(rng.gamma(1.0, 10.0, n) + 0.01, 2) if fb == "gamma" else rng.integers(0, 30, n).astype(float)


# ------------------------------------------------------------------ the moves
def apply(op, sc, rng, model):
    """-> (transformed scenario, args); model: the fitted model of sc"""
    z = dict(sc)
    z["est"] = dict(sc["est"])
    est, X = z["est"], sc["X"]
    n, p = X.shape
    j = int(rng.integers(p))
    g = {}
    z.pop("how", None)
    if op == "ScaleCol":
        c = float(rng.choice([10.0, 0.1, -3.0, 0.37, 200.0]))
        if c < 0 and (np.isfinite(bnd(sc, "lower_bounds")).any() or np.isfinite(bnd(sc, "upper_bounds")).any()
                      or sc["est"].get("l1_ratio")):
            c = -c
        if c < 0:
            c = 3.0
        g = dict(j=j + 1, c=c)
        z["X"] = X.copy()
        z["X"][:, j] *= c
        if est.get("start_params") is not None:
            est["start_params"] = np.array(est["start_params"], float)
            est["start_params"][j + est["fit_intercept"]] /= c
        if not est["scale_predictors"]:
            P1, P2 = P1of(sc), P2of(sc)
            P1[j] *= c
            P2 = P2.copy()
            P2[j, :] *= c
            P2[:, j] *= c
            if est["alpha"]:
                est["P1"], est["P2"] = P1, P2
        lo, hi = bnd(sc, "lower_bounds"), bnd(sc, "upper_bounds")
        lo[j] /= c
        hi[j] /= c
        setb(z, lo, hi)
    elif op == "ReflectCol":
        g = dict(j=j + 1)
        z["X"] = X.copy()
        z["X"][:, j] *= -1
        P2 = P2of(sc).copy()
        P2[j, :] *= -1
        P2[:, j] *= -1
        if est["alpha"]:
            est["P2"] = P2
        lo, hi = bnd(sc, "lower_bounds"), bnd(sc, "upper_bounds")
        lo[j], hi[j] = -hi[j], -lo[j]
        setb(z, lo, hi)
    elif op == "ShiftCol":
        c = float(rng.choice([1.0, -5.0, 25.0])) * float(np.round(stds(sc)[j], 3) or 1.0)
        g = dict(j=j + 1, c=c)
        z["X"] = X.copy()
        z["X"][:, j] += c
        if est.get("start_params") is not None:
            est["start_params"] = np.array(est["start_params"], float)
            est["start_params"][0] -= c * est["start_params"][j + 1]
    elif op == "PermuteCols":
        ix = rng.permutation(p)
        g = dict(ix=(ix + 1).tolist())
        z["X"] = X[:, ix]
        if est["alpha"]:
            est["P1"], est["P2"] = P1of(sc)[ix], P2of(sc)[np.ix_(ix, ix)]
        setb(z, bnd(sc, "lower_bounds")[ix], bnd(sc, "upper_bounds")[ix])
    elif op == "AddConstCol":
        c = float(rng.choice([1.0, -2.5, 40.0, 0.0, 0.1, 123.4, -1e3]))
        z["X"] = np.column_stack([X, np.full(n, c)])
        if sc["fmt"] != "f32" and rng.random() < 0.6:
            z["fmt"] = str(rng.choice(["csc", "csr", "tm-sparse", "csc_array"]))
        est.pop("start_params", None)
        P2 = np.zeros((p + 1, p + 1))
        P2[:p, :p] = P2of(sc)
        P2[p, p] = 1.0
        est["P1"], est["P2"] = np.append(P1of(sc), 1.0), P2
        setb(z, np.append(bnd(sc, "lower_bounds"), -np.inf), np.append(bnd(sc, "upper_bounds"), np.inf))
        g = dict(c=c, l1=est["alpha"] * est["l1_ratio"], l2=est["alpha"] * (1 - est["l1_ratio"]))
    elif op == "ExplicitScale":
        sd = stds(sc)
        z["X"] = X / sd
        est["scale_predictors"] = False
        setb(z, bnd(sc, "lower_bounds") * sd, bnd(sc, "upper_bounds") * sd)
    elif op == "ScaleWeights":
        c = float(rng.choice([0.01, 7.0, 1000.0]))
        g = dict(c=c)
        z["s"] = sc["s"] * c
    elif op == "OnesWeights":
        z["s"] = np.ones(n) if rng.random() < 0.7 else np.ones(n, dtype=int)
    elif op == "NoWeights":
        z["s"] = None
    elif op == "SplitRows":
        ix = np.repeat(np.arange(n), sc["s"].astype(int))
        ix = ix[rng.permutation(len(ix))] if rng.random() < 0.5 else ix
        z = rows(z, ix)
        z["s"] = None if rng.random() < 0.5 else np.ones(len(ix))
        g = dict(ix=(ix + 1).tolist())
    elif op == "SplitOneRow":
        i = int(rng.integers(n))
        part = float(sc["s"][i] * rng.integers(0, 9) / 8)
        ix = np.append(np.arange(n), i)
        z = rows(z, ix)
        z["s"] = z["s"].astype(float)
        z["s"][i], z["s"][n] = part, sc["s"][i] - part
        g = dict(i=i + 1, part=part, ix=(ix + 1).tolist())
    elif op == "DropZeroRows":
        ix = np.flatnonzero(sc["s"] > 0)
        z = rows(z, ix)
        g = dict(ix=(ix + 1).tolist())
    elif op == "AddZeroRows":
        k = int(rng.integers(1, 4))
        nx = np.round(X[rng.integers(n, size=k)] * 1.5, 3)
        ny = valid_y(rng, sc, k)
        no = np.round(rng.uniform(-1, 1, k), 2)
        if sc["off"] is None or np.ndim(sc["off"]) == 0:
            no = np.full(k, 0.0 if sc["off"] is None else float(sc["off"]))
        else:
            z["off"] = np.append(sc["off"], no)
        z["X"], z["y"] = np.vstack([X, nx]), np.append(sc["y"], ny)
        z["s"] = np.append(wvec(sc), np.zeros(k))
        g = dict(X=nx, y=ny, off=no)
    elif op == "GarbageZeroRows":
        zr = np.flatnonzero(sc["s"] == 0)
        z["X"], z["y"] = X.copy(), sc["y"].copy()
        z["X"][zr] = np.round(z["X"][zr] * 2 + 1, 3)
        z["y"][zr] = valid_y(rng, sc, len(zr))
        if sc["off"] is not None and np.ndim(sc["off"]):
            z["off"] = sc["off"].copy()
            z["off"][zr] = 0.77
    elif op == "PermuteRows":
        ix = rng.permutation(n)
        z = rows(z, ix)
        g = dict(ix=(ix + 1).tolist())
    elif op == "ConstOffset":
        c = float(rng.choice([0.5, -0.75, 2.0]))
        g = dict(c=c)
        z["off"] = c if sc["off"] is None else sc["off"] + c
    elif op == "OffsetXv":
        v = np.round(rng.normal(size=p) * 0.4 / stds(sc), 4)
        g = dict(v=v)
        z["off"] = ovec(sc) + X @ v
        setb(z, bnd(sc, "lower_bounds") - v, bnd(sc, "upper_bounds") - v)
    elif op == "ZeroOffset":
        z["off"] = [0.0, 0, np.float64(0)][rng.integers(3)]
    elif op == "NoOffset":
        z["off"] = None
    elif op == "SpreadOffset":
        z["off"] = np.full(n, float(sc["off"]))
    elif op == "WriteP1":
        v = P1of(sc)
        if (v == 1).all():
            est["P1"] = [None, "identity", v, v.tolist(), v.astype(int)][rng.integers(5)]
        else:
            est["P1"] = [v.tolist(), v.astype(float), tuple(v)][rng.integers(3)]
    elif op == "WriteP2":
        v = P2of(sc)
        d = np.diag(v).copy()
        if (v == np.eye(p)).all():
            est["P2"] = [None, "identity", d, v, d.tolist()][rng.integers(5)]
        elif (v == np.diag(d)).all():
            est["P2"] = [d, d.tolist(), v, sps.diags(d).tocsc()][rng.integers(4)]
        else:
            est["P2"] = [v, v.tolist(), np.asfortranarray(v)][rng.integers(3)]
    elif op == "AsymP2":
        v = P2of(sc).copy()
        if p > 1:
            k = (j + 1) % p
            v[j, k] += 0.3
            v[k, j] -= 0.3
        est["P2"] = v if rng.random() < 0.5 else [sps.csc_matrix, sps.csr_matrix, sps.coo_matrix, sps.csr_array][rng.integers(4)](v)
    elif op == "SparseP2":
        v = P2of(sc)
        est["P2"] = [sps.csc_matrix, sps.csr_matrix, sps.coo_matrix, sps.csc_array][rng.integers(4)](v)
    elif op == "RescaleAlpha":
        c = float(rng.choice([0.5, 2.0, 10.0]))
        est["P1"], est["P2"] = P1of(sc) / c, P2of(sc) / c
        est["alpha"] *= c
    elif op == "FoldL1Ratio":
        r = float(rng.choice([0.2, 0.8]))
        est["P1"] = P1of(sc) * est["l1_ratio"] / r
        est["P2"] = P2of(sc) * (1 - est["l1_ratio"]) / (1 - r)
        est["l1_ratio"] = r
    elif op == "VacuousBounds":
        t = rng.integers(4)
        if t == 0:
            est["lower_bounds"] = -np.inf
        elif t == 1:
            est["upper_bounds"] = np.full(p, np.inf)
        elif t == 2:
            est["lower_bounds"], est["upper_bounds"] = [-np.inf] * p, np.inf
        else:
            est["upper_bounds"] = np.inf
        est["solver"] = "auto"
    elif op == "SpreadBounds":
        est["solver"] = "auto"
        lo, hi = bnd(sc, "lower_bounds"), bnd(sc, "upper_bounds")
        est["lower_bounds"], est["upper_bounds"] = lo, hi.tolist()
    elif op == "Solver":
        a = ["irls-cd"]
        b = np.isfinite(bnd(sc, "lower_bounds")).any() or np.isfinite(bnd(sc, "upper_bounds")).any()
        b = b or est.get("lower_bounds") is not None or est.get("upper_bounds") is not None
        if not b and not (est["alpha"] and est["l1_ratio"]):
            a += ["irls-ls", "irls-ls", "irls-cd"]
            if "unit" not in sc:
                a += ["lbfgs"]
            if gen.fam_base(sc["fam"]) == "normal":
                a += ["closed-form"]
            if rng.random() < 0.15 and "unit" not in sc:
                a = ["trust-constr"]
        est["solver"] = a[rng.integers(len(a))]
        if est["solver"] in ("lbfgs", "trust-constr"):
            est["gradient_tol"] = 1e-9 if est["solver"] == "lbfgs" else 1e-8
            est["max_iter"] = 3000
        else:
            est["gradient_tol"] = 1e-9 * sc.get("unit", 1.0)
    elif op in ("StartAt", "StartInfeasible", "StartAtSolution"):
        sd = stds(sc)
        if op == "StartAt":
            w = np.round(0.05 * rng.normal(size=p) / sd, 6)
            v = np.append(0.1, w) if est["fit_intercept"] else w
        elif op == "StartInfeasible":
            lo, hi = bnd(sc, "lower_bounds"), bnd(sc, "upper_bounds")
            w = np.where(np.isfinite(hi), hi + 0.2 / sd, np.where(np.isfinite(lo), lo - 0.2 / sd, 0.0))
            v = np.append(0.1, w) if est["fit_intercept"] else w
        else:
            v = np.append(model.intercept_, model.coef_) if est["fit_intercept"] else np.array(model.coef_)
        est["start_params"] = v if rng.random() < 0.5 else v.tolist()
    elif op == "WarmStart":
        z["how"] = str(rng.choice(["again", "elsewhere", "weights"]))
    elif op == "RandomSelection":
        est["selection"] = "random"
        est["random_state"] = int(rng.integers(1000))
    elif op == "HessApprox":
        est["hessian_approx"] = float(rng.choice([1e-4, 1e-2, 0.3]))
    elif op == "Container":
        z["fmt"] = str(rng.choice(gen.FORMATS + ["list", "csc_array"]))
    elif op == "ScaleResponse":
        c = float([1e-6, 1e-3, 0.1, 30.0, 1e4][rng.integers(5)])
        g = dict(c=c)
        z["y"] = sc["y"] * c
        start = est.get("start_params")
        if start is not None:
            start = np.array(start, float)
        if gen.fam_base(sc["fam"]) == "normal":
            unit = c
            if sc["off"] is not None:
                z["off"] = sc["off"] * c
            if est["alpha"]:
                est["P1"] = P1of(sc) * c
            setb(z, bnd(sc, "lower_bounds") * c, bnd(sc, "upper_bounds") * c)
            if start is not None:
                start = start * c
        else:
            unit = c ** (2 - POWER[sc["fam"]])
            est["alpha"] *= unit
            if start is not None:
                start[0] += np.log(c)
        if start is not None:
            est["start_params"] = start
        z["unit"] = sc.get("unit", 1.0) * unit
        est["gradient_tol"] = est["gradient_tol"] * unit
    elif op == "ReflectResponse":
        z["y"] = -sc["y"] if gen.fam_base(sc["fam"]) == "normal" else 1 - sc["y"]
        if sc["off"] is not None:
            z["off"] = -sc["off"]
        if est.get("start_params") is not None:
            est["start_params"] = -np.array(est["start_params"], float)
        setb(z, -bnd(sc, "upper_bounds"), -bnd(sc, "lower_bounds"))
    elif op == "Single":
        z["fmt"] = "f32"
        est["gradient_tol"] = None
        z["tol"] = 1e-4
    else:
        raise KeyError(op)
    return z, g


def fit(sc):
    m = fitrun.estimator(sc)
    rec = fitrun.base_record(sc)
    with Quiet() as q, np.errstate(all="ignore"):
        try:
            Xf = gen.to_format(sc["X"], sc["fmt"])
            kw = dict(sample_weight=sc["s"], offset=sc["off"])
            y = sc["y"].astype(np.float32) if sc["fmt"] == "f32" else sc["y"]
            how = sc.get("how")
            if how:
                m.set_params(warm_start=True)
                if how == "again":
                    m.fit(Xf, y, **kw)
                elif how == "elsewhere":
                    m.set_params(alpha=sc["est"]["alpha"] + 1.0)
                    m.fit(Xf, y, **kw)
                    m.set_params(alpha=sc["est"]["alpha"])
                else:
                    m.fit(Xf, y, sample_weight=np.linspace(1, 2, len(y)), offset=sc["off"])
            m.fit(Xf, y, **kw)
            rec["outcome"] = "ok"
            rec["b"], rec["w"] = float(m.intercept_), np.asarray(m.coef_, float)
        except Exception as ex:
            rec["outcome"] = f"{type(ex).__name__}: {str(ex)[:120]}"
            rec["b"], rec["w"] = 0.0, []
    rec["conv"] = not any(c in fitrun.CONV for c in q.names) and not any("failed" in s for s in q.messages)
    if rec["outcome"] == "ok":
        with Quiet(), np.errstate(all="ignore"):
            rec["cm"] = np.asarray(m.col_means_, float).reshape(-1)
            rec["cs"] = np.asarray(m.col_stds_, float).reshape(-1)
            X, y, s, off = sc["X"], sc["y"], sc["s"], sc["off"]
            if off is None:
                rec["score"] = float(m.score(X, y, sample_weight=s))
            if not sc["est"]["alpha"] and "lower_bounds" not in sc["est"] and "upper_bounds" not in sc["est"]:
                try:
                    se = m.std_errors(X, y, sample_weight=s, offset=off, robust=False, expected_information=True)
                    rec["se"] = np.asarray(se, float)[1 if sc["est"]["fit_intercept"] else 0:]
                except Exception as ex:
                    rec["outcome"] = f"std_errors {type(ex).__name__}: {str(ex)[:120]}"
    return rec, m


def run_chain(job):
    """job: dict(f, h, seed[, combo]) -> list of trace lines"""
    rng = np.random.default_rng(job["seed"])
    sc = base(rng, job["f"], job.get("combo"))
    a, m = fit(sc)
    out = []
    for op in job["h"]:
        if a["outcome"] != "ok":
            out.append(dict(op=op, args={}, a=a, z=a, rtol=0.0, stol=0.0, ctol=0.0))
            break
        z, g = apply(op, sc, rng, m)
        b, mz = fit(z)
        r = 1e-5
        if {"lbfgs", "trust-constr"} & {sc["est"]["solver"], z["est"]["solver"]}:
            r = 2e-3
        if "f32" in (sc["fmt"], z["fmt"]):
            r = 2e-2
        out.append(dict(op=op, args=g, a=a, z=b, rtol=r, stol=max(1.0, r / 1e-5) * 10,
                        ctol=1e-5 if z["fmt"] == "f32" else 1e-11,
                        what=fitrun.describe(z)))
        sc, a, m = z, b, mz
    return out


def choose(rng, chains, k):
    """k chains such that every (operation, feature) pair met is covered evenly"""
    order = rng.permutation(len(chains))
    seen, out, rest = {}, [], []
    for i in order:
        c = chains[i]
        keys = [(op, q, v) for op in c["h"] for q, v in c["f"].items()]
        if min(seen.get(x, 0) for x in keys) < 3 and len(out) < k:
            out.append(c)
            for x in keys:
                seen[x] = seen.get(x, 0) + 1
        else:
            rest.append(c)
    return out + rest[: max(0, k - len(out))]


def check_chains(ck, rng, ops, depth=2, k=500, combo=None, kinds=("any",)):
    """generate chains with TLC, run them, validate every move with TLC"""
    from vlib import run_scenarios

    cfg = ("SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT Emit\nCONSTANTS\n  Kinds = {%s}\n  Depth = %d\n  Ops = {%s}\n"
           % (", ".join(f'"{o}"' for o in kinds), depth, ", ".join(f'"{o}"' for o in ops)))
    key = ("moves", tuple(ops), depth, tuple(kinds))
    cache = ck.__dict__.setdefault("_chains", {})
    if key not in cache:
        cache[key] = ck.generate("Moves", cfg, name=f"Moves depth {depth}")
    sel = choose(rng, cache[key], k)
    jobs = [dict(f=c["f"], h=c["h"], seed=int(rng.integers(1 << 40)), combo=combo) for c in sel]
    recs = run_scenarios(run_chain, jobs)
    lines = []
    for job, r in zip(jobs, recs):
        if isinstance(r, dict):
            ck.violation(f"{job['h']} {job['f']}: {r['crash']}", {"job": job, "tb": r.get("tb")})
        else:
            lines += [(job, x) for x in r]
    conv = 0
    for job, x in lines:
        ck.count("move " + x["op"])
        conv += x["a"]["conv"] and x["z"]["conv"]
        ck.count("move " + x["op"] + " of a converged fit", x["a"]["conv"])
        ck.count("move " + x["op"] + " not converged", x["a"]["conv"] and not x["z"]["conv"])
    ck.count("moves", len(lines))
    ck.count("both_converged", conv)
    if conv < 0.9 * len(lines):
        ck.violation(f"only {conv} of {len(lines)} pairs of well-posed fits converged", {})
    for i, c in ck.trace("MovesTrace", [x for _, x in lines], "MoveClauses"):
        job, x = lines[i]
        if "MACHINERY" in c:
            from vlib import die
            die(f"transformation misapplied: {c} {job}")
        ck.violation(f"{x['op']} (in {'>'.join(job['h'])}; {job['f']}): {c} [{x.get('what')}]",
                     {"job": job, "a": x["a"], "z": x["z"], "args": x["args"]})
    for job, x in lines[:2]:
        ck.sample({"chain": job["h"], "features": job["f"], "op": x["op"], "before": [x["a"]["b"], x["a"]["w"]],
                   "after": [x["z"]["b"], x["z"]["w"]]})
