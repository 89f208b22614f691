"""C12: covariance estimates equal the documented sandwich formulas."""
import pickle

import numpy as np
import pandas as pd

import args
import fitrun
import gen
import infer
from vlib import TIER, Check, Quiet, run_scenarios, start

start()
import glum  # noqa: E402

ck = Check("C12")


def record(sc, m, kw, X, y, s, off, what):
    r = infer.args_record(sc, m, X, y, s, off)
    robust = kw.get("robust")
    robust = sc["est"].get("robust", True) if robust is None else robust
    ex = kw.get("expected_information")
    ex = sc["est"].get("expected_information", False) if ex is None else ex
    mu, d = kw.get("mu"), kw.get("dispersion")
    grp = kw.get("_grp")
    r.update(mode="clustered" if grp is not None else "robust" if robust else "classical", exp=bool(ex),
             dk="none" if d is None else "given", disp=0.0 if d is None else float(d),
             mk="none" if mu is None else "given", muarg=[] if mu is None else np.asarray(mu, float),
             grp=[] if grp is None else (np.asarray(grp) + 1).tolist(), V=[], se=[], tab="no", level=0.0, coef=[], tse=[],
             tt=[], tp=[], tlo=[], thi=[], rtol=1e-10, what=f"{what} {fitrun.describe(sc)}")
    return r


def table(r, t, level):
    r.update(tab="yes", level=level, coef=t["coef"].to_numpy(float), tse=t["se"].to_numpy(float), tt=t["t_value"].to_numpy(float),
             tp=t["p_value"].to_numpy(float), tlo=t["ci_lower"].to_numpy(float), thi=t["ci_upper"].to_numpy(float))


def job(seed):
    rng = np.random.default_rng(seed)
    over = {}
    if rng.random() < 0.3:
        over["robust"] = bool(rng.random() < 0.5)
    if rng.random() < 0.3:
        over["expected_information"] = bool(rng.random() < 0.5)
    sc, m = infer.fitted(rng, **over)
    if sc is None:
        return []
    out = []
    for _ in range(3):
        if rng.random() < 0.3:
            X, y, s, off = infer.other_data(rng, sc, m)
            with Quiet(), np.errstate(all="ignore"):
                mu = np.asarray(m.predict(X, offset=off), float)
            if not np.isfinite(mu).all() or gen.fam_base(sc["fam"]) not in ("normal", "ghs", "gaussian") and mu.min() < 1e-3 or mu.max() > 1e6:
                continue
        else:
            X, y, s, off = sc["X"], sc["y"], sc["s"], sc["off"]
        n = len(y)
        S = n if s is None else s * n if np.ndim(s) == 0 else s.sum()
        if S <= X.shape[1] + 2:
            continue
        kw, call = {}, {}
        if rng.random() < 0.6:
            kw["robust"] = bool(rng.random() < 0.5)
        if rng.random() < 0.5:
            kw["expected_information"] = bool(rng.random() < 0.5)
        if rng.random() < 0.35:
            M = int(rng.integers(2, max(3, n // 3)))
            grp = rng.integers(M, size=n)
            grp = np.unique(grp, return_inverse=True)[1]
            if grp.max() > 0:
                kw["_grp"] = grp
                call["clusters"] = infer.labels(rng, grp)
        if rng.random() < 0.3:
            kw["dispersion"] = float(np.round(rng.uniform(0.5, 3), 3))
        if rng.random() < 0.2:
            with Quiet():
                kw["mu"] = np.asarray(m.predict(X, offset=off), float) * (1.02 if sc["fam"] != "binomial" else 0.98)
        call.update({k: v for k, v in kw.items() if k != "_grp"})
        if "mu" in call and rng.random() < 0.5:
            call["mu"] = call["mu"].tolist() if rng.random() < 0.5 else pd.Series(call["mu"])
        fmt = str(rng.choice(infer.FMTS))
        Xa = gen.to_format(X, fmt)
        with Quiet(), np.errstate(all="ignore"):
            ya = [y, y.tolist(), pd.Series(y, index=np.arange(n)[::-1])][rng.integers(3)]
            V = np.asarray(m.covariance_matrix(Xa, ya, sample_weight=s, offset=off, **call), float)
            r = record(sc, m, kw, X, y, s, off, f"asked {sorted(kw)} as {fmt}")
            r["V"] = V
            if rng.random() < 0.6:
                r["se"] = np.asarray(m.std_errors(gen.to_format(X, str(rng.choice(infer.FMTS))), y, sample_weight=s, offset=off, **call), float)
            if rng.random() < 0.6:
                lv = float(rng.choice([0.95, 0.9, 0.5, 0.99]))
                kk = dict(call, confidence_level=lv) if lv != 0.95 or rng.random() < 0.5 else call
                table(r, m.coef_table(gen.to_format(X, str(rng.choice(infer.FMTS))), y, sample_weight=s, offset=off, **kk), lv)
        out.append(r)
    # stored at fit time, or by a query, and asked for without data
    if rng.random() < 0.5:
        n = len(sc["y"])
        kw, fk = {}, {}
        if rng.random() < 0.4:
            grp = np.unique(rng.integers(4, size=n), return_inverse=True)[1]
            kw["_grp"] = grp
            fk["clusters"] = infer.labels(rng, grp)
        at_fit = rng.random() < 0.6
        m2 = fitrun.estimator(sc)
        how = "plain"
        if rng.random() < 0.5:
            sib = infer.sibling(rng, sc, **(dict(store_covariance_matrix=True, **fk) if at_fit else {}))
            if sib is None:
                return out
            how, m2 = sib
        with Quiet(), np.errstate(all="ignore"):
            Xf = gen.to_format(sc["X"], sc["fmt"])
            if at_fit and how != "plain":
                pass
            elif at_fit:
                m2.fit(Xf, sc["y"], sample_weight=sc["s"], offset=sc["off"], store_covariance_matrix=True, **fk)
            else:
                if how == "plain":
                    m2.fit(Xf, sc["y"], sample_weight=sc["s"], offset=sc["off"])
                q = ["covariance_matrix", "std_errors"][rng.integers(2)]
                if rng.random() < 0.5:
                    kw["robust"] = fk["robust"] = bool(rng.random() < 0.5)
                    if "_grp" in kw:
                        del kw["robust"], fk["robust"]
                getattr(m2, q)(Xf, sc["y"], sample_weight=sc["s"], offset=sc["off"], store_covariance_matrix=True, **fk)
            if rng.random() < 0.3:
                m2 = pickle.loads(pickle.dumps(m2))
            r = record(sc, m2, kw, sc["X"], sc["y"], sc["s"], sc["off"], f"stored by {how} {'at fit' if at_fit else 'by a query'} {sorted(kw)}")
            r["V"] = np.asarray(m2.covariance_matrix(), float)
            r["se"] = np.asarray(m2.std_errors(), float)
            table(r, m2.coef_table(), 0.95)
            # another query does not disturb what is stored
            m2.std_errors(Xf, sc["y"], robust=False)
            if not np.array_equal(np.asarray(m2.covariance_matrix(), float), r["V"]):
                r["V"] = np.full_like(r["V"], np.nan)
        out.append(r)
    return out


def validity():
    rng = np.random.default_rng(4)
    X = rng.normal(size=(30, 2))
    y = np.exp(0.2 * X[:, 0]) + rng.random(30)
    mk = lambda: glum.GeneralizedLinearRegressor(family="poisson", alpha=0)
    m = mk().fit(X, y)
    ms = mk().fit(X, y, store_covariance_matrix=True)
    mf = glum.GeneralizedLinearRegressor(family="poisson", alpha=0, formula="y ~ a + b").fit(
        pd.DataFrame({"a": X[:, 0], "b": X[:, 1], "y": y}))
    P, F = "allowed", "forbidden"
    out = []
    for call in ("covariance_matrix", "std_errors", "coef_table", "wald_test"):
        extra = {"R": np.eye(3)[1:2]} if call == "wald_test" else {}
        g = lambda mod, *a, **k: getattr(mod, call)(*a, **k, **extra)
        if call != "coef_table":
            out.append(args.plain(F, f"{call} with nothing stored and no data", lambda: g(m)))
            out.append(args.plain(F, f"{call} with y but no X", lambda: g(m, None, y)))
        out.append(args.plain(F, f"{call} with X but no y", lambda: g(m, X)))
        out.append(args.plain(P, f"{call} stored", lambda: g(ms)))
        for k, v in (("robust", False), ("sample_weight", np.ones(30)), ("offset", np.zeros(30)), ("mu", np.ones(30)),
                     ("dispersion", 1.0), ("clusters", np.arange(30) % 3), ("expected_information", True)):
            out.append(args.plain(F, f"{call} stored with another {k}", lambda: g(ms, **{k: v})))
            out.append(args.plain(P, f"{call} data with {k}", lambda: g(m, X, y, **{k: v})))
        out.append(args.plain(F, f"{call} wrong columns", lambda: g(m, X[:, :1], y)))
        out.append(args.plain(F, f"{call} wrong rows", lambda: g(m, X, y[:-1])))
        for what, c in (("short", np.arange(29) % 3), ("long", np.arange(31) % 3)):
            out.append(args.plain(F, f"{call} clusters {what}", lambda: g(m, X, y, clusters=c)))
        out += args.weight_lines(30, lambda w: g(m, X, y, sample_weight=w))
        out += args.offset_lines(30, lambda o: g(m, X, y, offset=o))
        df = pd.DataFrame({"a": X[:, 0], "b": X[:, 1], "y": y})
        out.append(args.plain(P, f"{call} formula with the response in X", lambda: g(mf, df)))
    for st in ("covariance_matrix", "std_errors"):
        out.append(args.plain(F, f"{st} store without data", lambda: getattr(mk().fit(X, y), st)(store_covariance_matrix=True)))
    for mod in (mk(),):
        for call in ("covariance_matrix", "std_errors", "coef_table"):
            out.append(args.plain(F, f"unfitted {call}", lambda: getattr(mod, call)(X, y)))
    Z = np.c_[X, X[:, 0]]
    ml = glum.GeneralizedLinearRegressor(family="poisson", alpha=0.1).fit(Z, y)
    return out


def one_round(rng):
    m = 700 if TIER == "quick" else 3000
    seeds = [int(rng.integers(1 << 40)) for _ in range(m)]
    lines = []
    for sd, r in zip(seeds, run_scenarios(job, seeds)):
        if isinstance(r, dict):
            ck.violation(f"a query raised: {r['crash']}", {"seed": sd, "tb": r.get("tb")})
        else:
            lines += r
    if len(lines) < m:
        ck.violation(f"only {len(lines)} covariance matrices of {m} models", {})
    for r in lines:
        ck.count(r["mode"])
        if r["what"].startswith("stored by"):
            ck.count(" ".join(r["what"].split()[:3]))
    for i, c in ck.trace("CovTrace", lines, "CovClauses"):
        ck.violation(f"{c[:500]} [{lines[i]['what']}]", lines[i])
    with Quiet():
        args.check(ck, validity())


ck.rounds(one_round)
ck.notes.append("matrices whose information matrix has a condition number above 1e7 are not compared")
ck.finish()
