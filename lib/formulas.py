"""Replay of formulas (Formula.tla) into the library."""
import numpy as np

import args
import cats
import fitrun
import gen
import scopes
from vlib import Quiet

NUM = ["x", "z", "w", "I(x ** 2)", "x * 2", "x + z", "center(x)", "scale(x)", "np.log(w)", "log(w)", "kk * x", "myf(x)", "exp(x)", "scale(w)"]
CAT = ["g", "h", "s", "b", "C(k)", "C(g)"]
BRACED = {"x * 2": "{x * 2}", "x + z": "{x + z}", "kk * x": "{kk * x}"}
KK = {"kk * x", "myf(x)"}


def text(e, top=True):
    op = e["op"]
    if op in ("0", "1"):
        return op
    if op == "v":
        return BRACED.get(e["f"], e["f"])
    if op == "^2":
        return f"({text(e['l'])})**2"
    s = f"{text(e['l'], False)} {op} {text(e['r'], False)}"
    return s if top and op == "+" else f"({s})"


def render(items, rng):
    out = ""
    for k, it in enumerate(items):
        t = text(it["e"], False)
        if k == 0:
            out = ("-" if it["sign"] == "-" else "") + t
        else:
            out += f" {it['sign']} {t}"
    return out


def rename(e, m):
    """replace the factors of the model by others of their kind"""
    e = dict(e)
    if e["op"] == "v":
        e["f"] = m[e["f"]]
    for k in ("l", "r"):
        if k in e:
            e[k] = rename(e[k], m)
    return e


def factors(e):
    return ({e["f"]} if e["op"] == "v" else set()).union(*(factors(e[k]) for k in ("l", "r") if k in e), set())


def myf_for(kk):
    return lambda v: kk + v**2


def context(kk):
    return None if kk is None else {"kk": kk, "myf": myf_for(kk)}


def draw(rng, n, levels=None, unseen=False):
    """values of all variables for n rows; levels: those to draw categorical values from"""
    ch = lambda q: q[rng.integers(len(q))]
    L = levels
    d = {"x": np.round(rng.normal(size=n) + 0.4, 3), "z": np.round(rng.normal(size=n) * 0.7, 3), "w": np.round(rng.uniform(0.5, 3, n), 3)}
    for c in "ghskb":
        v = [L[c][i % len(L[c])] for i in rng.permutation(n)] if not unseen else [ch(L[c]) for _ in range(n)]
        d[c] = v
    return d


def native(rng, d, enc, decl, pl, names):
    import pandas as pd
    import polars

    out = {}
    for c in names:
        v = d[c]
        if c in "xzw":
            out[c] = v
        elif c == "k":
            out[c] = [int(t) for t in v]
        elif c == "b":
            out[c] = [t == "True" for t in v]
        elif c == "s" or enc.get(c) == "str":
            out[c] = polars.Series(v, dtype=polars.String) if pl else pd.Series(v, dtype=object)
        elif enc.get(c) == "catg":
            out[c] = polars.Series(v, dtype=polars.Categorical)
        else:
            more = [t for t in dict.fromkeys(v) if t not in decl[c]]
            q = decl[c] + more
            q = q if enc.get(c) != "rev" else q[::-1]
            out[c] = polars.Series(v, dtype=polars.Enum(q)) if pl else pd.Categorical(v, categories=q)
    return polars.DataFrame(out) if pl else pd.DataFrame(out)


def cells(d, names, encs=None, decl=None):
    out = {}
    for c in names:
        if c in "xzw":
            out[c] = dict(v=d[c])
        else:
            bare = encs is None or c in "skb" or encs.get(c) in ("str", "catg")
            out[c] = dict(enc="bare" if bare else "cat", decl=[] if bare else decl[c], vals=list(d[c]))
    return out


def job(item):
    import glum

    beh, seed, nask, compare = item
    rng = np.random.default_rng(seed)
    ch = lambda q: q[rng.integers(len(q))]
    pl = bool(rng.random() < 0.4)
    # other factors in place of those of the model
    if rng.random() < 0.35:
        m = dict(x="x", z="z", g="g", h="h")
    else:
        a, b = rng.permutation(len(NUM))[:2]
        cat = [c for c in CAT if c != "b" or not pl]  # Boolean columns of polars are beyond tabmat
        c, d_ = rng.permutation(len(cat))[:2]
        m = dict(x=NUM[a], z=NUM[b], g=cat[c], h=cat[d_])
        if {m["g"], m["h"]} == {"g", "C(g)"}:
            m["h"] = "s"
        if len({m["x"], m["z"]} & {"x", "x * 2", "center(x)", "scale(x)", "kk * x"}) == 2:
            m["z"] = "w"
        if {m["x"], m["z"]} in ({"log(w)", "np.log(w)"}, {"w", "scale(w)"}, {"x + z", "z"}, {"x", "x + z"}, {"I(x ** 2)", "myf(x)"}):
            m["z"] = "exp(x)"
    items = [dict(sign=i["sign"], e=rename(i["e"], m)) for i in beh["items"]]
    fi = beh["fi"]
    used = set().union(*(factors(i["e"]) for i in items))
    n = int(rng.integers(36, 54))
    levels = dict(g=ch([["a", "b"], ["c", "a", "b"]]), h=ch([["u", "v"], ["w", "u", "v", "t"], ["h1", "h3", "h2"]]),
                  s=["p", "q", "r"][: int(rng.integers(2, 4))], k=ch([["1", "2", "10"], ["3", "0"], ["-1", "5", "11"]]), b=["True", "False"])
    D = draw(rng, n, levels)
    decl = dict(g=levels["g"] + (["unused"] if rng.random() < 0.3 else []), h=list(levels["h"]))
    encs = {c: ch(["cat", "cat", "str"] + (["catg"] if pl else [])) for c in "gh"}
    kk = ch([2.0, 0.5])
    needs = bool(used & KK)
    fitctx = kk if needs and rng.random() < 0.93 else None
    eta = 0.4 * D["x"] - 0.3 * D["z"] + 0.2 * np.array([len(v) + ord(v[0]) % 3 for v in D["g"]])
    fam = ch(["normal", "normal", "poisson"])
    lhs, lhstext, giveny = "none", "y", True
    y = np.round(eta + 0.4 * rng.normal(size=n), 3) if fam == "normal" else rng.poisson(np.exp(0.5 * eta)).astype(float)
    r = rng.random()
    if r < 0.35:
        lhs, giveny = "one", False
        t = rng.random()
        if t < 0.1 and fam == "normal":
            lhstext = "np.log(w)"
        elif t < 0.2 and fam == "normal":
            lhstext = "x + z"
        elif t < 0.35 and fam == "normal" and fitctx is not None:
            lhstext = "kk * x"
        elif t < 0.45:
            giveny = True  # refused
    elif r < 0.38:
        lhs, giveny = "two", False
    elif r < 0.41:
        giveny = False
    if lhs != "none" and items[0]["sign"] == "-" and items[0]["e"]["op"] == "0":  # "y ~ -0" is beyond formulaic's parser
        lhs, lhstext, giveny = "none", "y", True
    D["y"] = y
    formula = render(items, rng)
    if lhs == "one":
        formula = (BRACED.get(lhstext, lhstext)) + " ~ " + formula
    if lhs == "two":
        formula = "y + z ~ " + formula
    sep = ch([":", ":", ":", ":", ":", "|", "_x_"])
    fmt, parts = ch([x for x in cats.FORMATS if x[1]])
    drop = bool(rng.random() < 0.5)
    est = dict(formula=formula, alpha=ch([0.01, 0.1]), l1_ratio=ch([0.0, 0.0, 0.4]), fit_intercept=fi, drop_first=drop,
               gradient_tol=1e-8, max_iter=1000, interaction_separator=sep, categorical_format=fmt, solver="auto")
    if fi and rng.random() < 0.2:
        est["scale_predictors"] = True
    names = [str(v) for v in rng.permutation(["x", "z", "w", "g", "h", "s", "k", "b"])]
    df = native(rng, D, encs, decl, pl, names)
    if lhs != "none":
        import narwhals as nw

        df = nw.from_native(df).with_columns(nw.new_series("y", y.tolist(), backend="polars" if pl else "pandas")).to_native()
    sw = np.round(rng.uniform(0.5, 2, n), 3) if rng.random() < 0.3 else None
    sc = dict(X=np.zeros((n, 1)), y=y, s=sw, off=None, fam=fam, link="auto", est=est, tol=1e-8)
    rec = fitrun.base_record(sc)
    del rec["X"]
    univ = sorted(set(sum(levels.values(), [])) | {"unused", "nope"})
    rec.update(items=items, fi=fi, drop=drop, sep=sep, fmt=parts, univ=univ, missname="(MISSING)", data=cells(D, names, encs, decl),
               ctx=[] if fitctx is None else [fitctx], lhs=lhs, lhstext=lhstext, giveny=giveny, names=[], terms=[], asks=[], same=[],
               b=0.0, w=[], conv=False, mustconv=True)
    desc = dict(formula=formula, sep=sep, fi=fi, drop=drop, pl=pl, encs=encs, est={k: est[k] for k in ("alpha", "l1_ratio")}, fam=fam, kk=fitctx, lhs=lhs,
                giveny=giveny, weighted=sw is not None)
    fa, _ = gen.family(fam)
    mdl = glum.GeneralizedLinearRegressor(family=fa, **est)
    kw = dict(context=context(fitctx)) if fitctx is not None else {}
    if giveny:
        yarg = (y,)
    else:
        yarg = () if rng.random() < 0.5 else (None,)
    rec.update(scopes=[[], []], depth=-1)
    where = None
    if needs and rng.random() < 0.35:  # names are looked up in a scope of the caller
        where = scopes.draw(rng, fitctx)
        rec.update(ctx=[], scopes=[[] if v is None else [v] for v in where[0]], depth=where[1])
        if rng.random() < 0.1:
            rec["depth"] = 2
    with Quiet() as q, np.errstate(all="ignore"):
        try:
            if where is not None:
                scopes.call(mdl.fit, (df,) + yarg, dict(sample_weight=sw), where[0], rec["depth"])
            else:
                mdl.fit(df, *yarg, sample_weight=sw, **kw)
            rec.update(outcome="ok", b=float(mdl.intercept_), w=np.asarray(mdl.coef_, float),
                       names=list(map(str, mdl.feature_names_)), terms=list(map(str, mdl.term_names_)))
        except Exception as ex:
            rec["outcome"] = f"{args.exname(ex)}: {str(ex)[:160]}"
    rec["conv"] = not any(nm in fitrun.CONV for nm in q.names)
    if rec["outcome"] != "ok":
        return dict(rec=rec, desc=desc)
    for k in range(nask):
        na = int(rng.integers(1, 5))
        r = rng.random()
        L = dict(levels)
        if r < 0.2:
            c = ch(list("ghsk"))
            L[c] = L[c] + (["99"] if c == "k" else ["nope"])
        d = draw(rng, na, L, unseen=True)
        have = [v for v in names if r < 0.2 or r > 0.3 or rng.random() < 0.85]
        if k == nask - 1:
            d, have, na = D, names, n
        actx = (None if rng.random() < 0.15 else ch([fitctx, 3.0])) if fitctx is not None else None
        apl = pl if rng.random() < 0.8 or "b" in used else not pl
        aencs = {c: ch(["cat", "rev", "str"] + (["catg"] if apl else [])) for c in "gh"}
        a = dict(data=cells(d, have), ctx=[] if actx is None else [actx], n=na, lin=[], rtol=1e-9, scopes=[[], []], depth=-1)
        at = None
        if rng.random() < 0.35:
            at = scopes.draw(rng, actx)
            a.update(ctx=[], scopes=[[] if v is None else [v] for v in at[0]], depth=at[1] if rng.random() < 0.9 else 1 - at[1])
        with Quiet(), np.errstate(all="ignore"):
            try:
                adf = native(rng, d, aencs, decl, apl, have)
                akw = dict(context=context(actx)) if actx is not None else {}
                which = "linear_predictor" if rng.random() < 0.5 else "predict"
                if at is not None:
                    lin = scopes.call(getattr(mdl, which), (adf,), {}, at[0], a["depth"])
                else:
                    lin = getattr(mdl, which)(adf, **akw)
                if which == "predict" and fam != "normal":
                    lin = np.log(lin)
                a.update(outcome="ok", lin=np.asarray(lin, float))
            except Exception as ex:
                a["outcome"] = f"{args.exname(ex)}: {str(ex)[:160]}"
        rec["asks"].append(a)
    if compare:
        rec["same"] = explicit(rng, mdl, df, y if lhstext == "y" else None, sw, fitctx if needs else None,
                               fa, est, lhs, D, lhstext, fitctx)
    return dict(rec=rec, desc=desc)


def explicit(rng, mdl, df, y, sw, ctx, fa, est, lhs, D, lhstext, kk):
    """the same questions to the model of the explicit design"""
    import glum

    out = []
    kw = {} if ctx is None else dict(context=context(ctx))

    def at(f, *a, **k):
        """f with the context, or from a scope in which its names are bound"""
        if ctx is None or rng.random() < 0.6:
            return f(*a, **k, **kw)
        return scopes.call(f, a, k, *scopes.draw(rng, ctx))

    if lhstext != "y":
        y = {"np.log(w)": lambda: np.log(D["w"]), "x + z": lambda: D["x"] + D["z"], "kk * x": lambda: kk * D["x"]}[lhstext]()
    try:
        X = mdl.X_model_spec_.get_model_matrix(df, context=kw.get("context")).toarray()
    except Exception:  # a question about the data of the fit: asked, and judged, elsewhere
        return []
    full = np.linalg.matrix_rank(np.column_stack([X] + [np.ones(len(X))] * est["fit_intercept"])) == X.shape[1] + est["fit_intercept"]
    skip = ("formula", "drop_first", "interaction_separator", "categorical_format")
    m2 = glum.GeneralizedLinearRegressor(family=fa, **{k: v for k, v in est.items() if k not in skip})
    ya = (y,) if lhs == "none" else ()

    def both(what, f, g, rtol=2e-5, atol=1e-8):
        res = []
        for h in (f, g):
            with Quiet(), np.errstate(all="ignore"):
                try:
                    res.append([float(t) for t in np.ravel(h())])
                except Exception as ex:
                    res.append(args.exname(ex))
        if isinstance(res[0], str) or isinstance(res[1], str):
            ok = isinstance(res[0], str) and isinstance(res[1], str)
            out.append(dict(what=what, a=[] if ok else [0.0], b=[], rtol=1.0, atol=1.0))
            return
        out.append(dict(what=what, a=res[0], b=res[1], rtol=rtol, atol=atol))

    with Quiet():
        m2.fit(X, y, sample_weight=sw)
    both("coef", lambda: mdl.coef_, lambda: m2.coef_, 1e-5, 1e-6)
    both("score", lambda: at(mdl.score, df, y, sample_weight=sw), lambda: m2.score(X, y, sample_weight=sw))
    if est["l1_ratio"] == 0 and full:
        rob = bool(rng.random() < 0.5)
        cl = rng.integers(0, 6, len(y)) if rng.random() < 0.4 else None
        both("std_errors", lambda: at(mdl.std_errors, df, *ya, sample_weight=sw, robust=rob, clusters=cl),
             lambda: m2.std_errors(X, y, sample_weight=sw, robust=rob, clusters=cl), 1e-3, 1e-6)
        both("coef_table", lambda: at(mdl.coef_table, df, *ya, sample_weight=sw, robust=rob, clusters=cl)[["se", "ci_upper"]].to_numpy(),
             lambda: m2.coef_table(X, y, sample_weight=sw, robust=rob, clusters=cl)[["se", "ci_upper"]].to_numpy(), 1e-3, 1e-5)
        R = np.eye(len(mdl.coef_) + est["fit_intercept"])[:1]
        both("wald_test", lambda: at(mdl.wald_test, df, *ya, sample_weight=sw, robust=rob, clusters=cl, R=R).test_statistic,
             lambda: m2.wald_test(X, y, sample_weight=sw, robust=rob, clusters=cl, R=R).test_statistic, 1e-2, 1e-3)
    if not kw or rng.random() < 0.5:
        for c in ("aic", "bic", "aicc"):
            both(c, lambda: at(getattr(mdl, c), df, y, sample_weight=sw), lambda: getattr(m2, c)(X, y, sample_weight=sw))
    if rng.random() < 0.3:
        cv = {k: v for k, v in est.items() if k not in ("alpha", "solver")}
        cv.update(alphas=[0.3, 0.03], cv=3)
        a = glum.GeneralizedLinearRegressorCV(family=fa, **cv)
        b = glum.GeneralizedLinearRegressorCV(family=fa, **{k: v for k, v in cv.items() if k not in skip})
        both("cv", lambda: np.append(at(a.fit, df, *ya, sample_weight=sw).coef_, a.alpha_),
             lambda: np.append(b.fit(X, y, sample_weight=sw).coef_, b.alpha_), 1e-4, 1e-5)
    return out
