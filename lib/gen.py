"""Scenario generation and execution: random GLM problems and real fits of them."""
import numpy as np

FAMS = {
    # name -> (glum family argument factory, trace family)
    "normal": ("normal", dict(name="normal", p=0.0, theta=1.0)),
    "gaussian": ("gaussian", dict(name="normal", p=0.0, theta=1.0)),
    "poisson": ("poisson", dict(name="poisson", p=0.0, theta=1.0)),
    "gamma": ("gamma", dict(name="gamma", p=0.0, theta=1.0)),
    "invgauss": ("inverse.gaussian", dict(name="invgauss", p=0.0, theta=1.0)),
    "binomial": ("binomial", dict(name="binomial", p=0.0, theta=1.0)),
    "negbin": ("negative.binomial", dict(name="negbin", p=0.0, theta=1.0)),
    "tweedie": ("tweedie", dict(name="tweedie", p=1.5, theta=1.0)),
}


def family(spec):
    """'tweedie:1.25', 'negbin:0.5', 'ghs', ... -> (glum argument, trace record)"""
    import glum

    if ":" in spec:
        base, v = spec.split(":")
        x = float(v)
        if base == "tweedie":
            arg = glum.TweedieDistribution(int(x) if x == int(x) else x)
            return arg, dict(name="tweedie", p=float(np.float32(x)), theta=1.0)
        if base == "tweediestr":
            return f"tweedie ({v})", dict(name="tweedie", p=float(np.float32(x)), theta=1.0)
        if base == "negbin":
            arg = glum.NegativeBinomialDistribution(x)
            return arg, dict(name="negbin", p=0.0, theta=float(np.float32(x)))
        if base == "negbinstr":
            return f"negative.binomial ({v})", dict(
                name="negbin", p=0.0, theta=float(np.float32(x)))
        raise KeyError(spec)
    if spec == "ghs":
        return glum.GeneralizedHyperbolicSecant(), dict(name="ghs", p=0.0, theta=1.0)
    arg, rec = FAMS[spec]
    return arg, dict(rec)


def fam_base(spec):
    return spec.split(":")[0].replace("str", "")


def link(spec, fspec):
    """-> (glum argument, trace record)"""
    import glum

    if spec == "auto":
        _, f = family(fspec)
        n = f["name"]
        name = {"normal": "identity", "ghs": "identity", "binomial": "logit"}.get(n, "log")
        if n == "tweedie" and f["p"] <= 0:
            name = "identity"
        return "auto", dict(name=name, p=0.0)
    if spec.startswith("tweedie:"):
        x = float(spec.split(":")[1])
        return glum.TweedieLink(int(x) if x == int(x) else x), dict(
            name="tweedie", p=float(np.float32(x)))
    return spec, dict(name=spec, p=0.0)


# (family, link) combinations for which random problems are well posed
COMBOS = [
    ("normal", "auto"), ("normal", "auto"), ("normal", "log"), ("gaussian", "identity"),
    ("poisson", "auto"), ("poisson", "auto"), ("poisson", "identity"), ("poisson", "log"),
    ("gamma", "auto"), ("gamma", "log"), ("gamma", "identity"),
    ("invgauss", "auto"), ("invgauss", "log"),
    ("binomial", "auto"), ("binomial", "logit"), ("binomial", "cloglog"),
    ("negbin", "auto"), ("negbin:0.5", "auto"), ("negbinstr:2.5", "log"),
    ("tweedie", "auto"), ("tweedie:1.25", "log"), ("tweediestr:1.75", "auto"),
    ("tweedie:1.7", "auto"), ("tweedie:0", "auto"), ("tweedie:1", "auto"), ("tweedie:2", "auto"),
    ("tweedie:3", "auto"), ("tweedie:2.5", "auto"), ("tweedie:-1", "log"),
    ("ghs", "auto"), ("normal", "tweedie:0"), ("poisson", "tweedie:1"), ("gamma", "tweedie:1"),
    ("poisson", "tweedie:1.5"), ("tweedie:1", "identity"), ("tweedie:0", "log"), ("tweedie:2", "identity"),
    ("tweedie", "identity"), ("negbin", "identity"), ("gamma", "tweedie:1.5"), ("normal", "tweedie:1"),
    ("tweedie:1", "tweedie:1.5"),
]


def design(rng, n, p, kinds=None):
    """columns of assorted nature; returns X (n,p) and the kinds"""
    ks = kinds or [
        rng.choice(["norm", "norm", "norm", "bin", "sparse", "big", "small", "shift", "int", "unif"])
        for _ in range(p)
    ]
    X = np.empty((n, p))
    for j, k in enumerate(ks):
        if k == "norm":
            c = rng.normal(size=n)
        elif k == "bin":
            c = (rng.random(n) < 0.4).astype(float)
            c[0], c[1] = 0.0, 1.0
        elif k == "sparse":
            c = rng.normal(size=n) * (rng.random(n) < 0.3)
            c[rng.integers(n)] = 1.5
        elif k == "big":
            c = 40.0 * rng.normal(size=n)
        elif k == "small":
            c = 0.03 * rng.normal(size=n)
        elif k == "shift":
            c = 6.0 + rng.normal(size=n)
        elif k == "int":
            c = rng.integers(-2, 4, size=n).astype(float)
            c[0], c[1] = -1.0, 2.0
        elif k == "unif":
            c = rng.uniform(0.1, 1.0, size=n)
        elif k == "const":
            c = np.full(n, 1.75)
        else:
            raise KeyError(k)
        # short decimals keep traces small; doubles are exact anyway
        X[:, j] = np.round(c, 3)
    return X, ks


def response(rng, fspec, lspec, X, off, ratio=False):
    """a y in the range of the family with a moderate signal"""
    n, p = X.shape
    sd = X.std(axis=0)
    sd[sd == 0] = 1.0
    Z = (X - X.mean(axis=0)) / sd
    b = rng.normal(size=p) * (0.5 / np.sqrt(max(p, 1)))
    b[rng.random(p) < 0.3] = 0.0
    lin = Z @ b
    fb = fam_base(fspec)
    _, lk = link(lspec, fspec)
    ident = lk["name"] == "identity" or (lk["name"] == "tweedie" and lk["p"] not in (1.0,))
    if fb in ("normal", "gaussian", "ghs"):
        if lk["name"] == "log":
            y = np.exp(lin + (0 if off is None else off)) + 0.1 * rng.normal(size=n)
            y = np.maximum(y, 0.05)
        else:
            y = 1.0 + lin + (0 if off is None else off) + 0.7 * rng.normal(size=n)
        return np.round(y, 4)
    if fb == "binomial":
        pr = 1 / (1 + np.exp(-lin + 0.1))
        y = (rng.random(n) < pr).astype(float)
        if y.min() == y.max():
            y[0] = 1 - y[0]
        if ratio:
            y = np.round(np.clip(pr + 0.15 * rng.normal(size=n), 0.0, 1.0), 3)
        return y
    if fb == "tweedie" and float(fspec.split(":")[1] if ":" in fspec else 1.5) <= 0:
        if lk["name"] == "log":
            return np.round(np.exp(lin) + 0.1 + rng.random(n), 3)
        return np.round(1 + lin + 0.5 * rng.normal(size=n), 3)
    mu = np.exp(lin) if not ident else np.maximum(3.0 + lin, 0.5)
    if off is not None and not ident:
        mu = mu * np.exp(off)
    if fb == "poisson":
        y = rng.poisson(mu).astype(float)
        if ratio:
            y = np.round(y / rng.integers(1, 4, size=n), 4)
        if ident:
            y = y + 0.0
    elif fb == "negbin":
        y = rng.negative_binomial(3, 3 / (3 + mu)).astype(float)
    elif fb == "tweedie" and 1 < (float(fspec.split(":")[1]) if ":" in fspec else 1.5) < 2:
        y = np.round(rng.gamma(2.0, mu / 2.0) * (rng.random(n) < 0.75), 3)
    elif fb == "tweedie" and (float(fspec.split(":")[1]) if ":" in fspec else 1.5) == 1:
        y = rng.poisson(mu).astype(float)
    else:
        y = np.round(np.maximum(rng.gamma(4.0, mu / 4.0), 0.05), 4)
    if len(np.unique(y)) == 1:
        y[0] += 1.0
    if (y == 0).all() or y.sum() == 0:
        y[0] = 1.0
    return y


def weights(rng, n, kind):
    if kind == "none":
        return None
    if kind == "ones":
        return np.ones(n)
    if kind == "scalar":
        return 2.5
    if kind == "unif":
        return np.round(rng.uniform(0.5, 2.0, size=n), 3)
    if kind == "big":
        return np.round(1000.0 * rng.uniform(0.5, 2.0, size=n), 1)
    if kind == "int":
        return rng.integers(1, 5, size=n).astype(float)
    if kind == "zeros":
        w = np.round(rng.uniform(0.5, 2.0, size=n), 3)
        k = rng.choice(n, size=max(1, n // 6), replace=False)
        w[k] = 0.0
        return w
    raise KeyError(kind)


def psd(rng, p, few=True):
    if few and p > 1 and rng.random() < 0.4:  # few entries: pairs of coupled coefficients, others without penalty
        M = np.diag(np.round(rng.uniform(0.2, 2, p), 2) * (rng.random(p) < rng.choice([0.0, 0.3, 0.7])))
        for _ in range(1 if rng.random() < 0.7 else 2):
            i, j = rng.permutation(p)[:2]
            c, t = np.round(rng.uniform(0.2, 2), 2), rng.choice([-1.0, 1.0, 0.5])
            v = np.zeros(p)
            v[i], v[j] = 1, t
            M = M + c * np.outer(v, v)
        return M
    B = np.round(rng.normal(size=(p, p)), 2)
    M = np.round(B @ B.T / p, 4) + 0.1 * np.eye(p)
    return M


def to_format(X, fmt, rng=None):
    """present the same design through another container"""
    import pandas as pd
    import scipy.sparse as sps
    import tabmat as tm

    if fmt == "c":
        return np.ascontiguousarray(X)
    if fmt == "f":
        return np.asfortranarray(X)
    if fmt == "nc":  # neither C nor Fortran contiguous
        Z = np.zeros((2 * X.shape[0], 2 * X.shape[1]))
        Z[::2, ::2] = X
        return Z[::2, ::2]
    if fmt == "list":
        return [list(map(float, r)) for r in X]
    if fmt == "csc":
        return sps.csc_matrix(X)
    if fmt == "csr":
        return sps.csr_matrix(X)
    if fmt == "csc_array":
        return sps.csc_array(X)
    if fmt == "coo":
        return sps.coo_matrix(X)
    if fmt == "tm-dense":
        return tm.DenseMatrix(np.asfortranarray(X))
    if fmt == "tm-sparse":
        return tm.SparseMatrix(sps.csc_matrix(X))
    if fmt == "tm-split":
        p = X.shape[1]
        idx = [np.arange(0, p, 2), np.arange(1, p, 2)]
        if p == 1:
            return tm.DenseMatrix(np.asfortranarray(X))
        return tm.SplitMatrix(
            [tm.DenseMatrix(np.asfortranarray(X[:, idx[0]])),
             tm.SparseMatrix(sps.csc_matrix(X[:, idx[1]]))], idx)
    if fmt == "df":
        return pd.DataFrame({f"v{j}": X[:, j] for j in range(X.shape[1])})
    if fmt == "polars":
        import polars as pl

        return pl.DataFrame({f"v{j}": X[:, j] for j in range(X.shape[1])})
    if fmt == "f32":
        return X.astype(np.float32)
    if fmt == "int":
        return X.astype(np.int64)
    raise KeyError(fmt)


FORMATS = ["c", "f", "csc", "csr", "tm-dense", "tm-split", "df", "polars", "tm-sparse", "nc", "coo"]
