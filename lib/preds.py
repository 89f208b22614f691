"""Prediction observations for PredTrace."""
import numpy as np

import fitrun
import gen
from vlib import Quiet

COMBOS = [("normal", "auto"), ("normal", "log"), ("poisson", "auto"), ("poisson", "identity"), ("gamma", "log"),
          ("binomial", "auto"), ("binomial", "cloglog"), ("tweedie", "auto"), ("negbin", "auto"), ("ghs", "auto"),
          ("invgauss", "log"), ("poisson", "tweedie:1.5"), ("normal", "tweedie:0")]
FMTS = ["c", "f", "nc", "list", "csc", "csr", "coo", "csc_array", "tm-dense", "tm-sparse", "tm-split", "df", "polars"]


def fitted(rng, combo=None):
    """a fitted model with arbitrary (possibly extreme) parameters, set by a fit"""
    f, lk = combo or COMBOS[rng.integers(len(COMBOS))]
    p = int(rng.integers(1, 5))
    sc = fitrun.problem(rng, combo=(f, lk), p=p, alpha=float(rng.choice([0.01, 0.3])), l1=float(rng.choice([0.0, 0.5])),
                        solver="auto", bounds=False, nuisance=False, size="small")
    sc["est"].pop("start_params", None)
    m = fitrun.estimator(sc)
    with Quiet(), np.errstate(all="ignore"):
        m.fit(gen.to_format(sc["X"], sc["fmt"]), sc["y"], sample_weight=sc["s"], offset=sc["off"])
    return sc, m


def frame_names(sc):
    return sc["fmt"] in ("df", "polars")


def pred_lines(seed):
    """[lines] about one model"""
    rng = np.random.default_rng(seed)
    for _ in range(5):
        try:
            sc, m = fitted(rng)
        except Exception:
            continue
        break
    else:
        return []
    p = sc["X"].shape[1]
    _, lrec = gen.link(sc["link"], sc["fam"])
    out = []
    sd = sc["X"].std(0) + 0.1
    pos = lrec["name"] == "tweedie" and lrec["p"] not in (0.0, 1.0)
    for _ in range(3):
        n = int(rng.choice([1, 2, 5, 9]))
        X = np.round(sc["X"][rng.integers(len(sc["y"]), size=n)] + (0 if pos else 1) * sd * rng.normal(size=(n, p)), 3)
        if not pos and rng.random() < 0.3:
            X = X * rng.choice([5.0, 30.0])
        ok = str(rng.choice(["none", "scalar", "vec"]))
        off = {"none": None, "scalar": float(rng.choice([0.4, -0.3, 0.0])), "vec": np.round(rng.uniform(-1, 1, n), 3)}[ok]
        if pos:
            ok, off = "none", None
        sk = str(rng.choice(["none", "none", "scalar", "vec"]))
        s = {"none": None, "scalar": 2.5, "vec": np.round(rng.uniform(0, 3, n), 2)}[sk]
        if sk == "vec":
            s[0] = 1.5
        fmt = str(rng.choice(FMTS))
        if np.ndim(off) == 1 and rng.random() < 0.2:
            offa = off.tolist()
        else:
            offa = off
        Xa = gen.to_format(X, fmt)
        with Quiet(), np.errstate(all="ignore"):
            lin = np.asarray(m.linear_predictor(Xa, offset=offa), float).reshape(-1)
            mu = np.asarray(m.predict(Xa, offset=offa), float).reshape(-1)
            wmu = [] if s is None else np.asarray(m.predict(Xa, sample_weight=s, offset=offa), float).reshape(-1)
        if not np.isfinite(mu).all() or np.abs(mu).max() > 1e200:
            continue
        out.append(dict(kind="pred", X=X, b=float(m.intercept_), w=np.asarray(m.coef_, float), link=lrec, ok=ok,
                        off=0.0 if off is None else off, sk=sk, s=0.0 if s is None else s, clip=50 * 2.220446049250313e-16,
                        rtol=1e-11, lin=lin, mu=mu, wmu=wmu, what=fitrun.describe(sc) + " asked as " + fmt))
        ix = rng.permutation(n)[: int(rng.integers(1, n + 1))]
        if rng.random() < 0.5:
            ix = np.append(ix, ix[0])
        with Quiet(), np.errstate(all="ignore"):
            sub = np.asarray(m.predict(gen.to_format(X[ix], str(rng.choice(FMTS))),
                                       offset=off if np.ndim(off) == 0 else off[ix]), float)
        out.append(dict(kind="rows", ix=(ix + 1).tolist(), all=mu, sub=sub, rtol=1e-11,
                        what=fitrun.describe(sc) + " rows"))
    return out


def check(ck, rng, k):
    from vlib import run_scenarios

    seeds = [int(rng.integers(1 << 40)) for _ in range(k)]
    lines = []
    for sd, r in zip(seeds, run_scenarios(pred_lines, seeds)):
        if isinstance(r, dict):
            ck.violation(f"prediction raised: {r['crash']}", {"seed": sd, "tb": r.get("tb")})
        else:
            lines += r
    ck.count("prediction_lines", len(lines))
    if len(lines) < 3 * k:
        ck.violation(f"only {len(lines)} predictions of {k} models", {})
    for i, c in ck.trace("PredTrace", lines, "PredClauses"):
        ck.violation(f"{c} [{lines[i]['what']}]", lines[i])
