"""C14: distribution objects against the definitions of their families."""
import numpy as np

import gen
from vlib import Check, Quiet, run_scenarios, start, TIER

start()
import glum  # noqa: E402

ck = Check("C14")
ck.model("FamilyLaws", "SPECIFICATION Spec\nINVARIANT Laws\n")

SPECS = ["normal", "poisson", "gamma", "invgauss", "binomial", "negbin:1", "negbin:0.3", "negbin:4",
         "ghs", "tweedie:0", "tweedie:1", "tweedie:1.05", "tweedie:1.25", "tweedie:1.5", "tweedie:1.7",
         "tweedie:1.95", "tweedie:2", "tweedie:2.5", "tweedie:3", "tweedie:4", "tweedie:-1", "tweedie:-0.5"]
CLS = {"normal": "NormalDistribution", "poisson": "PoissonDistribution", "gamma": "GammaDistribution",
       "invgauss": "InverseGaussianDistribution", "binomial": "BinomialDistribution"}


def obj(spec):
    if spec in CLS:
        return getattr(glum, CLS[spec])() if hasattr(glum, CLS[spec]) else getattr(
            __import__("glum._distribution", fromlist=["x"]), CLS[spec])()
    a, _ = gen.family(spec)
    return a


def power(spec):
    return {"normal": 0.0, "poisson": 1.0, "gamma": 2.0, "invgauss": 3.0}.get(
        spec, float(spec.split(":")[1]) if spec.startswith("tweedie") else None)


def draw(rng, spec, n):
    """responses in range (with boundary values) and means"""
    p = power(spec)
    pick = rng.random()
    if spec == "binomial":
        mu = np.clip(rng.random(n), 1e-3, 1 - 1e-3)
        if pick < 0.3:
            mu = np.clip(mu * 10.0 ** rng.uniform(-8, 0, n), 1e-9, None)
        y = rng.choice([0.0, 1.0, 0.5, 0.25], size=n)
        y = np.where(rng.random(n) < 0.3, np.round(rng.random(n), 3), y)
        return y, mu
    mu = np.exp(rng.normal(size=n) * (1.0 if pick < 0.7 else 4.0))
    if spec == "ghs" or (p is not None and p <= 0):
        if spec == "ghs" or p == 0:
            mu = mu * rng.choice([-1.0, 1.0], size=n)
        y = rng.normal(size=n) * np.abs(mu)
        y[rng.random(n) < 0.15] = 0.0
        return np.round(y, 4), mu
    if spec in ("poisson", "tweedie:1") or spec.startswith("negbin"):
        y = rng.poisson(np.minimum(mu, 1e6)).astype(float)
        if rng.random() < 0.4:
            y = np.round(y / 3, 4)
        return y, mu
    y = mu * rng.gamma(2.0, 0.5, size=n)
    y = np.maximum(y, 1e-9)
    if p is not None and 1 < p < 2:
        y[rng.random(n) < 0.25] = 0.0
    if rng.random() < 0.3:
        k = rng.integers(n)
        if p is None or p != 3:
            y[k] = mu[k]
    return y, mu


def dist_line(job):
    spec, seed = job
    rng = np.random.default_rng(seed)
    n = int(rng.integers(1, 7))
    d = obj(spec)
    _, frec = gen.family(spec)
    y, mu = draw(rng, spec, n)
    p = power(spec)
    phi = float(np.round(np.exp(rng.normal() * 0.7), 3))
    if p is not None and 1 < p < 2:
        # keep the series of the density short enough to be summed term by term
        long = p in (1.25, 1.5) and rng.random() < 0.25
        y = np.minimum(y, 200.0 if long else 20.0)
        mu = np.clip(mu, 0.05, 200.0 if long else 20.0)
        phi = float(np.round(10.0 ** rng.uniform(-3, 0), 5)) if long else max(phi, 0.4)
    s = np.round(rng.uniform(0.3, 3.0, n), 3)
    if rng.random() < 0.2:
        s = rng.integers(1, 4, n).astype(float)
    hass = bool(rng.random() < 0.7)
    ddof = int(rng.integers(0, 2))
    while (s.sum() if hass else n) - ddof < 0.5:
        ddof -= 1
    sw = s if hass else None
    if spec.startswith("tweedie") and 1 < p < 2:
        jm = (np.maximum(y, 1e-12) ** (2 - p) / phi / (2 - p)).max()
        while jm > (2500 if long else 90):
            phi *= 2
            jm /= 2
    r = dict(kind="dist", fam=frec, y=y, mu=mu, s=s, hass=hass, phi=phi, ddof=ddof, eps=2e-10,
             eps10=1e-9, epsll=1e-9)
    # parameters are kept in single precision, so are reciprocals and differences of them
    if spec in ("negbin:0.3", "tweedie:1.05", "tweedie:1.7", "tweedie:1.95"):
        r["eps"], r["eps10"], r["epsll"] = 1e-6, 1e-6, 1e-6
    yy, mm = y, mu
    form = "array" if p in (1.25, 1.5) and long else rng.choice(["array", "array", "f32"])
    if form == "f32":
        yy, mm = y.astype(np.float32), mu.astype(np.float32)
        r["y"], r["mu"] = yy.astype(float), mm.astype(float)
        if spec == "binomial":
            form = "array"
            yy, mm, r["y"], r["mu"] = y, mu, y, mu
        else:
            r["eps"], r["eps10"], r["epsll"] = 5e-5, 1e-4, 1e-4
    vec = lambda v: np.broadcast_to(np.asarray(v, float), (n,))
    with Quiet(), np.errstate(all="ignore"):
        try:
            r["uv"] = vec(d.unit_variance(mm))
            r["uvd"] = vec(d.unit_variance_derivative(mm))
            r["ud"] = vec(d.unit_deviance(yy, mm))
            r["udd"] = vec(d.unit_deviance_derivative(yy, mm))
            r["var"] = vec(d.variance(mm, dispersion=phi, sample_weight=s))
            r["vard"] = vec(d.variance_derivative(mm, dispersion=phi, sample_weight=s))
            r["dd"] = vec(d.deviance_derivative(yy, mm, sample_weight=s))
            r["dev"] = float(d.deviance(yy, mm, sample_weight=sw))
            r["phiP"] = float(d.dispersion(yy, mm, sample_weight=sw, ddof=ddof))
            r["phiD"] = float(d.dispersion(yy, mm, sample_weight=sw, ddof=ddof, method="deviance"))
        except Exception as e:
            return dict(kind="raised", what=f"{spec} {type(e).__name__}: {e}"[:200])
        tot = s.sum() if hass else n
        pea = None
        try:
            pea = float(d.dispersion(yy, mm, sample_weight=sw, ddof=1)) if tot > 1.5 else None
            r["ll"] = float(d.log_likelihood(yy, mm, sample_weight=sw, dispersion=phi))
            ok = pea is not None and pea > 1e-3 and pea < 1e4
            if ok and p is not None and 1 < p < 2:
                ok = (np.maximum(y, 1e-12) ** (2 - p) / pea / (2 - p)).max() < 90 and pea < 50
            r["llok"] = ok
            if ok:
                if frec["name"] in ("binomial", "negbin"):
                    r["ll0"] = float(d.log_likelihood(yy, mm, sample_weight=sw))
                else:
                    r["ll0"] = float(d.log_likelihood(yy, mm, sample_weight=sw))
            else:
                r["ll0"] = 0.0
        except (NotImplementedError, AttributeError):
            r["ll"], r["ll0"], r["llok"] = "rejected", 0.0, False
        except Exception as e:
            return dict(kind="raised", what=f"log_likelihood {spec} {type(e).__name__}: {e}"[:200])
    return r


def range_line(job):
    spec, seed = job
    rng = np.random.default_rng(seed)
    d = obj(spec)
    _, frec = gen.family(spec)
    y = np.concatenate([np.array([0.0, -0.0, 1.0, np.inf, -np.inf, np.nan, -1e-300, 1e-300, 1 + 1e-12, 1 - 1e-12]),
                        rng.normal(size=8), rng.random(4)])
    rng.shuffle(y)
    try:
        return dict(kind="range", fam=frec, y=y, inr=[bool(b) for b in d.in_y_range(y)])
    except Exception as e:
        return dict(kind="raised", what=f"in_y_range {spec} {type(e).__name__}: {e}"[:200])


KERNELS = [("normal", "identity"), ("normal", "log"), ("poisson", "log"), ("poisson", "identity"),
           ("gamma", "log"), ("gamma", "identity"), ("invgauss", "log"), ("invgauss", "tweedie:3"),
           ("binomial", "logit"), ("binomial", "cloglog"), ("negbin:1", "log"), ("negbin:0.3", "log"),
           ("negbin:4", "identity"), ("ghs", "identity"), ("tweedie:1.25", "log"), ("tweedie:1.5", "log"),
           ("tweedie:1.95", "log"), ("tweedie:0", "identity"), ("tweedie:1", "log"), ("tweedie:2", "log"),
           ("tweedie:3", "log"), ("tweedie:2.5", "log"), ("tweedie:-1", "log"), ("tweedie:1.5", "tweedie:1.5"),
           ("gamma", "tweedie:2"), ("tweedie:4", "log"),
           ("tweedie:0", "log"), ("tweedie:1", "identity"), ("tweedie:2", "identity"), ("tweedie:3", "identity"),
           ("tweedie:1.5", "identity"), ("tweedie:2.5", "identity"), ("tweedie:1.25", "tweedie:1"), ("poisson", "tweedie:1"),
           ("poisson", "tweedie:1.5"), ("normal", "tweedie:0"), ("normal", "tweedie:1"), ("negbin:1", "tweedie:1"),
           ("negbin:4", "tweedie:1.5"), ("gamma", "tweedie:1"), ("invgauss", "identity"), ("tweedie:1", "tweedie:2"),
           ("tweedie:2", "tweedie:1"), ("tweedie:0", "tweedie:1"), ("tweedie:3", "tweedie:1"), ("ghs", "log")]


def linkobj(spec):
    import glum._link as L

    return {"identity": L.IdentityLink, "log": L.LogLink, "logit": L.LogitLink,
            "cloglog": L.CloglogLink}[spec]() if ":" not in spec else gen.link(spec, "normal")[0]


def kernel_line(job):
    (spec, lspec), seed = job
    rng = np.random.default_rng(seed)
    d, lk = obj(spec), linkobj(lspec)
    _, frec = gen.family(spec)
    _, lrec = gen.link(lspec, spec)
    n = int(rng.integers(1, 8))
    y, mu = draw(rng, spec, n)
    if spec == "binomial":
        c = rng.normal(size=n) * rng.choice([1.0, 4.0])
        if lspec == "logit" and rng.random() < 0.3:
            c = rng.uniform(-500, 500, size=n) * (rng.random(n) < 0.6)
        if lspec == "cloglog":
            c = np.clip(c, -6, 1.5)
    elif lspec == "log":
        c = np.clip(np.log(np.abs(mu)), -4, 4)
        y = np.clip(y, -50, 50)
        if spec in ("gamma", "invgauss", "tweedie:2", "tweedie:3", "tweedie:2.5", "tweedie:4"):
            y = np.maximum(y, 0.02)
    elif lspec == "identity":
        c = mu if spec in ("normal", "ghs", "tweedie:0") else np.clip(mu, 0.3, 20)
        y = np.clip(y, -50, 50)
        if spec in ("gamma", "invgauss", "tweedie:2", "tweedie:3", "tweedie:2.5"):
            y = np.maximum(y, 0.02)
    else:
        c = np.clip(mu, 0.3, 3.0)
        y = np.clip(y, 0.0 if spec.startswith("tweedie:1.5") else 0.05, 20)
    c = np.round(c, 4)
    dd = np.round(rng.uniform(-0.2, 0.2, n), 4)
    k1, k2 = float(rng.choice([0.0, 1.0, 0.5])), float(rng.choice([0.25, 0.75]))
    s = np.round(rng.uniform(0.2, 2.0, n), 3)
    f32 = bool(rng.random() < 0.25) and spec not in ("invgauss",) and np.abs(c).max() < 30
    r = dict(kind="kernel", fam=frec, link=lrec, k1=k1, k2=k2, eps=1e-10)
    if f32:
        y, c, dd, s = (a.astype(np.float32) for a in (y, c, dd, s))
        r["eps"] = 3e-5
    r.update(y=y.astype(float), c=c.astype(float), d=dd.astype(float), s=s.astype(float))
    with Quiet(), np.errstate(all="ignore"):
        try:
            e1, m1, dev1 = d.eta_mu_deviance(lk, k1, c, dd, y, s)
            _, _, dev2 = d.eta_mu_deviance(lk, k2, c, dd, y, s)
            g, h = d.rowwise_gradient_hessian(link=lk, coef=None, dispersion=1, X=None, y=y,
                                              sample_weight=s, eta=e1, mu=m1)
        except Exception as e:
            return dict(kind="raised", what=f"kernel {spec}/{lspec} {type(e).__name__}: {e}"[:200])
    r.update(eta1=reals(e1), mu1=reals(m1), dev1=float(dev1), dev2=float(dev2), grad=reals(g), hess=reals(h))
    return r


def reals(a):
    return np.asarray(a, float)


def reject_lines():
    out = []

    def t(what, f):
        try:
            f()
            out.append(dict(kind="reject", what=what, rejected=False))
        except (ValueError, TypeError):
            out.append(dict(kind="reject", what=what, rejected=True))

    for v in (0.5, 0.001, 0.999, np.float32(0.3)):
        t(f"tweedie power {v}", lambda: glum.TweedieDistribution(v))
    t("tweedie power string", lambda: glum.TweedieDistribution("1"))
    t("tweedie power None", lambda: glum.TweedieDistribution(None))
    for v in (0, -1, 0.0, -0.5):
        t(f"theta {v}", lambda: glum.NegativeBinomialDistribution(v))
    t("theta string", lambda: glum.NegativeBinomialDistribution("1"))
    d = glum.TweedieDistribution(1.5)
    t("setting power 0.5", lambda: setattr(d, "power", 0.5))
    t("setting theta 0", lambda: setattr(glum.NegativeBinomialDistribution(), "theta", 0))
    return out


def job(j):
    return {"d": dist_line, "r": range_line, "k": kernel_line}[j[0]](j[1:])


def one_round(rng):
    per = 25 if TIER == "quick" else 40
    jobs = []
    for sp in SPECS:
        # the series of the compound Poisson density is the expensive clause
        jobs += [("d", sp, int(rng.integers(1 << 40))) for _ in range(per if not sp.startswith("tweedie:1.") else per // 2)]
        jobs += [("r", sp, int(rng.integers(1 << 40))) for _ in range(2)]
    for kk in KERNELS:
        jobs += [("k", kk, int(rng.integers(1 << 40))) for _ in range(per)]
    recs = run_scenarios(job, jobs)
    lines = []
    for j, r in zip(jobs, recs):
        if "crash" in r:
            ck.violation(f"{j}: {r['crash']}", r)
        else:
            lines.append((j, r))
    lines += [(("reject",), r) for r in reject_lines()]
    for i, c in ck.trace("DistTrace", [r for _, r in lines], "Clauses"):
        ck.violation(f"{c} {lines[i][0]}", {"job": lines[i][0], "record": lines[i][1]})
    ck.count("lines", len(lines))
    for j, r in lines[:2]:
        ck.sample({k: r[k] for k in ("fam", "y", "mu", "ud", "dev") if k in r})


ck.rounds(one_round)
ck.notes += ["the compound Poisson density is summed over 150 terms; responses are drawn so that this "
             "is exhaustive to 1e-12", "kernels may omit terms constant in the coefficients"]
ck.finish()
