"""C15: link objects against the definitions of the links, and the default link of a family."""
import numpy as np

import gen
from vlib import Check, Quiet, run_scenarios, start, TIER

start()
import glum  # noqa: E402
import glum._link as L  # noqa: E402

ck = Check("C15")
ck.model("FamilyLaws", "SPECIFICATION Spec\nINVARIANT Laws\n")

LINKS = ["identity", "log", "logit", "cloglog", "tweedie:0", "tweedie:1", "tweedie:1.5", "tweedie:2",
         "tweedie:3", "tweedie:-1", "tweedie:1.25", "tweedie:2.5"]


def linkobj(spec):
    return {"identity": L.IdentityLink, "log": L.LogLink, "logit": L.LogitLink,
            "cloglog": L.CloglogLink}[spec]() if ":" not in spec else gen.link(spec, "normal")[0]


def link_line(job):
    spec, seed = job
    rng = np.random.default_rng(seed)
    lk = linkobj(spec)
    _, rec = gen.link(spec, "normal")
    n = int(rng.integers(1, 8))
    f32 = bool(rng.random() < 0.3)
    ty = np.float32 if f32 else float
    far = rng.random() < 0.35
    tw = spec.startswith("tweedie") and spec not in ("tweedie:0", "tweedie:1")
    if tw:
        x = np.exp(rng.normal(size=n))
        m = np.exp(rng.normal(size=n))
    elif spec == "logit":
        x = rng.normal(size=n) * (30.0 if far else 2.0)
        m = np.clip(rng.random(n), 1e-4, 1 - 1e-4)
        if far:
            x[rng.random(n) < 0.2] = rng.choice([700.0, -800.0, 36.0, -36.5])
            m = 10.0 ** rng.uniform(-12, -1, n)
    elif spec == "cloglog":
        x = rng.normal(size=n) * (8.0 if far else 0.8)
        m = np.clip(rng.random(n), 1e-4, 1 - 1e-4)
        if far:
            x[rng.random(n) < 0.2] = rng.choice([5.0, -50.0, 3.5, -700.0])
            m = 10.0 ** rng.uniform(-12, -1, n)
    else:
        x = rng.normal(size=n) * (20.0 if far else 2.0)
        m = np.exp(rng.normal(size=n) * (8.0 if far else 1.0))
        if spec in ("identity", "tweedie:0"):  # every number is a mean
            m = m * rng.choice([-1.0, 0.0, 1.0], size=n)
    if not tw:
        x[rng.random(n) < 0.1] = 0.0
    x, m = x.astype(ty), m.astype(ty)
    shape = rng.choice(["1d", "1d", "2d", "scalar"])
    if shape == "2d":
        xs, ms = x.reshape(1, n), m.reshape(1, n)
    elif shape == "scalar":
        n = 1
        x, m = x[:1], m[:1]
        xs, ms = x[0], m[0]
    else:
        xs, ms = x, m
    fi = np.finfo(ty)
    r = dict(kind="link", link=rec, x=x.astype(float), m=m.astype(float), clip=50 * float(fi.eps),
             eps=2e-5 if f32 else 1e-9, tiny=float(fi.tiny) if not f32 else 1e-30)
    # parameters of Tweedie links are kept in single precision
    if spec in ("tweedie:1.25", "tweedie:2.5", "tweedie:1.5"):
        r["eps"] = max(r["eps"], 1e-6)
    # near saturation a derivative of the logistic function is a difference of numbers near one
    if spec == "logit":
        r["tiny"] = r["clip"] / r["eps"]
    shp = np.shape(xs)
    ok = True

    def get(v):
        nonlocal ok
        ok = ok and (np.shape(v) == shp or shape == "scalar" and np.ndim(v) == 0)
        return np.broadcast_to(np.asarray(v, float).reshape(-1), (n,)).astype(float)

    keep = (np.array(xs, copy=True), np.array(ms, copy=True))
    with Quiet(), np.errstate(all="ignore"):
        try:
            r["inv"] = get(lk.inverse(xs))
            r["invd"] = get(lk.inverse_derivative(xs))
            r["invd2"] = get(lk.inverse_derivative2(xs))
            r["lk"] = get(lk.link(ms))
            r["lkd"] = get(lk.derivative(ms))
            r["rtm"] = get(lk.inverse(lk.link(ms)))
            r["rtx"] = get(lk.link(lk.inverse(xs)))
        except Exception as e:
            return dict(kind="raised", what=f"{spec} {shape} {type(e).__name__}: {e}"[:200])
    lo, hi = (200 * fi.eps, 1 - 200 * fi.eps)
    r["rtxok"] = [bool((spec not in ("logit", "cloglog")) or lo < v < hi) for v in r["inv"]]
    r["shapeok"] = bool(ok and np.array_equal(keep[0], xs) and np.array_equal(keep[1], ms))
    return r


def default_lines(rng):
    out = []
    X = rng.normal(size=(12, 1))
    for f in ["normal", "gaussian", "poisson", "gamma", "invgauss", "binomial", "negbin", "negbin:2", "tweedie",
              "tweedie:0", "tweedie:1", "tweedie:1.5", "tweedie:2", "tweedie:3", "tweedie:-1", "ghs",
              "tweediestr:1.5", "tweediestr:0", "tweediestr:3", "negbinstr:0.5"]:
        fa, frec = gen.family(f)
        y = 1.0 + rng.random(12)
        if f == "binomial":
            y = (y > 1.5).astype(float)
            y[:2] = 0, 1
        m = glum.GeneralizedLinearRegressor(family=fa, alpha=1.0)
        with Quiet():
            try:
                m.fit(X, y)
            except Exception as e:
                out.append(dict(kind="raised", what=f"default link {f}: {type(e).__name__} {e}"[:200]))
                continue
        # the link is observed through the fitted mean
        eta, mu = m.linear_predictor(X[:1])[0], m.predict(X[:1])[0]
        cand = [("identity", eta), ("log", np.exp(eta)), ("logit", 1 / (1 + np.exp(-eta)))]
        got = min(cand, key=lambda t: abs(t[1] - mu))
        out.append(dict(kind="default", fam=frec, got=got[0] if abs(got[1] - mu) < 1e-9 else "unknown"))
    return out


def reject_lines():
    out = []

    def t(what, f):
        try:
            f()
            out.append(dict(kind="reject", what=what, rejected=False))
        except (ValueError, TypeError):
            out.append(dict(kind="reject", what=what, rejected=True))

    for v in (0.5, 0.01, 0.99):
        t(f"tweedie link power {v}", lambda: glum.TweedieLink(v))
    t("tweedie link power string", lambda: glum.TweedieLink("2"))
    t("negative linear predictor with power 1.5",
      lambda: glum.TweedieLink(1.7).inverse(np.array([-1.0, 2.0])))
    t("unknown link name", lambda: glum.GeneralizedLinearRegressor(link="probit", alpha=0).fit(
        np.arange(6.0).reshape(-1, 1), np.arange(6.0)))
    t("unknown family name", lambda: glum.GeneralizedLinearRegressor(family="beta", alpha=0).fit(
        np.arange(6.0).reshape(-1, 1), np.arange(6.0)))
    return out


def one_round(rng):
    per = 150 if TIER == "quick" else 300
    jobs = [(s, int(rng.integers(1 << 40))) for s in LINKS for _ in range(per)]
    recs = run_scenarios(link_line, jobs)
    lines = []
    for j, r in zip(jobs, recs):
        if "crash" in r:
            ck.violation(f"{j}: {r['crash']}", r)
        else:
            lines.append((j, r))
    lines += [(("default",), r) for r in default_lines(rng)]
    lines += [(("reject",), r) for r in reject_lines()]
    for i, c in ck.trace("DistTrace", [r for _, r in lines], "Clauses"):
        ck.violation(f"{c} {lines[i][0]}", {"job": lines[i][0], "record": lines[i][1]})
    ck.count("lines", len(lines))
    for j, r in lines[:2]:
        ck.sample({k: r[k] for k in ("link", "x", "inv", "invd") if k in r})


ck.rounds(one_round)
ck.finish()
