"""Replay of categorical columns (Categorical.tla) into data frames and fits."""
import numpy as np

import args
import fitrun
import gen
from vlib import Quiet

MISS = "~missing~"
POOLS = [["a", "b", "c", "z"], ["10", "9", "100", "-1"], ["x y", "X", "é", "_"], ["b", "a", "ab", "aa"],
         ["nan", "None", "0", "True"], ["low", "mid", "high", "other"]]
FORMATS = [("{name}[{category}]", ["", "[", "]"]), ("{name}__{category}", ["", "__", ""]),
           ("{name}[T.{category}]", ["", "[T.", "]"])]


def missing(rng, pl):
    return None if pl else [None, np.nan][rng.integers(2)]


def series(rng, vals, enc, cats, pl, ordered=False, ints=False):
    """a column holding vals (names or MISS) stored as told"""
    import pandas as pd
    import polars

    if ints:  # integer levels
        if cats is not None:
            cats = [77 + int(x[2]) if x.startswith("zz") else int(x) for x in cats]
        vals = [x if x == MISS else int(x) for x in vals]
    v = [None if x == MISS else x for x in vals]
    if pl:
        if enc == "enum":
            return polars.Series(v, dtype=polars.Enum(cats))
        return polars.Series(v, dtype=polars.Categorical if enc == "catg" else polars.String)
    if enc == "enum":
        return pd.Series(pd.Categorical(v, categories=cats, ordered=ordered))
    if enc == "string":
        return pd.Series(v, dtype="string")
    return pd.Series([missing(rng, pl) if x is None else x for x in v], dtype=object)


def frame(cols, pl):
    import pandas as pd
    import polars

    return polars.DataFrame(cols) if pl else pd.DataFrame(cols)


def fill(rng, beh, names, n, wide):
    """the model's column, with rows to estimate from"""
    m = {k: v for k, v in zip(["a", "b", "c", "z"], names)}
    m[MISS] = MISS
    decl, vals = [m[x] for x in beh["decl"]], [m[x] for x in beh["vals"]]
    if MISS in vals:
        vals.remove(MISS)
        vals.insert(int(rng.integers(len(vals) + 1)), MISS)
    more = ["p", "q", "r"] if wide else []
    vals = vals + more
    if beh["enc"] == "cat":
        for x in more:
            decl.insert(int(rng.integers(len(decl) + 1)), x)
    full = vals + [vals[i] for i in rng.integers(len(vals), size=n - len(vals))]
    return decl, full, m


def ask_encodings(mode, pl, bare):
    if pl:
        return ["enum-same", "enum-rev", "enum-used", "enum-extra", "catg", "str"]
    return ["enum-same", "enum-rev", "enum-used", "enum-extra", "ordered", "str", "string"]


def stored(rng, vals, enc, levels, pl, ints=False):
    series_ = lambda *a, **k: series(*a, ints=ints, **k)
    have = [x for x in dict.fromkeys(vals) if x != MISS]
    unseen = [x for x in have if x not in levels]
    if enc in ("enum-same", "ordered"):
        return series_(rng, vals, "enum", levels + unseen, pl, ordered=enc == "ordered")
    if enc == "enum-rev":
        return series_(rng, vals, "enum", unseen + levels[::-1], pl)
    if enc == "enum-used":
        return series_(rng, vals, "enum", have[::-1], pl)
    if enc == "enum-extra":
        return series_(rng, vals, "enum", ["zz0"] + (levels + unseen)[::-1] + ["zz1"], pl)
    return series_(rng, vals, enc, None, pl)


def job(item):
    import glum

    beh, seed, nask = item
    rng = np.random.default_rng(seed)
    ch = lambda q: q[rng.integers(len(q))]
    bare, mode = beh["enc"] == "bare", beh["mode"]
    pl = True if bare and mode == "frame" else bool(rng.random() < 0.5)
    names = [str(x) for x in rng.permutation(ch(POOLS))]
    ints = not pl and mode == "frame" and "10" in names and beh["missname"] != "a"
    wide = bool(rng.random() < 0.4) and not ints
    n = int(rng.integers(26, 40))
    decl, gv, m = fill(rng, beh, names, n, wide)
    fit_enc = "enum" if not bare else "catg" if mode == "frame" else ch(["catg", "str"]) if pl else ch(["str", "string"])
    hl = ["u", "w"] if rng.random() < 0.5 else ["h3", "h1", "h2", "h5", "h4"]
    hv = [hl[i % len(hl)] for i in rng.permutation(n)]
    order = [str(x) for x in rng.permutation(["g", "x", "h"] if rng.random() < 0.6 else ["g", "x"])]
    x = np.round(rng.normal(size=n) + 0.5, 3)
    gs = series(rng, gv, fit_enc, decl, pl, ordered=bool(rng.random() < 0.2), ints=ints)
    hs = series(rng, hv, "enum", hl, pl)
    cols = {"g": gs, "x": x, "h": hs}
    cells = {"g": dict(kind="cat", name="g", enc=beh["enc"], decl=decl, vals=gv),
             "x": dict(kind="num", name="x", v=x),
             "h": dict(kind="cat", name="h", enc="cat", decl=hl, vals=hv)}
    fam = ch(["normal", "normal", "poisson"])
    eta = 0.3 * x + np.array([{"a": 0, "b": 1, "c": 2}.get(v, len(v) * 0.3) for v in gv]) * 0.3 + 0.4
    y = np.round(eta + 0.3 * rng.normal(size=n), 3) if fam == "normal" else rng.poisson(np.exp(eta)).astype(float)
    fmt, parts = FORMATS[0] if rng.random() < 0.6 else ch(FORMATS)
    if parts is None and "h" in order:  # names would repeat between the columns only if levels did
        pass
    al = ch([0.01, 0.1])
    est = dict(alpha=al, l1_ratio=ch([0.0, 0.0, 0.4]), fit_intercept=bool(rng.random() < 0.8),
               solver="auto", gradient_tol=1e-8, max_iter=500, drop_first=beh["drop"],
               cat_missing_method=beh["method"], categorical_format=fmt,
               cat_missing_name=m["a"] if beh["missname"] == "a" else ch(["(MISSING)", "NA!"]))
    if rng.random() < 0.3:
        est["scale_predictors"] = est["fit_intercept"]
    if mode == "formula":
        est["formula"] = " + ".join(order)
    pcol = False
    if mode == "frame" and rng.random() < 0.4:  # penalties per column of the frame
        pcol = True
        est["P1"] = np.round(rng.uniform(0.2, 2, len(order)), 2)
        if rng.random() < 0.5:
            est["P2"] = np.round(rng.uniform(0.2, 2, len(order)), 2)
    sw = np.round(rng.uniform(0.5, 2, n), 3) if rng.random() < 0.3 else None
    sc = dict(X=np.zeros((n, 1)), y=y, s=sw, off=None, fam=fam, link="auto", est=est, tol=1e-8)
    rec = fitrun.base_record(sc)
    del rec["X"]
    fa, _ = gen.family(fam)
    univ = sorted(set(names) | {"p", "q", "r"} | set(hl))
    rec.update(mode=mode, method=beh["method"], drop=beh["drop"], missname=est["cat_missing_name"], univ=univ,
               fmt=parts if parts is not None else ["", "", ""], cols=[cells[c] for c in order], pcol=pcol,
               names=[], terms=[], asks=[], b=0.0, w=[], conv=False, mustconv=True)
    mdl = glum.GeneralizedLinearRegressor(family=fa, **est)
    desc = dict(pl=pl, fit_enc=fit_enc, order=order, est={k: v for k, v in est.items() if k != "gradient_tol"}, fam=fam,
                decl=decl, first=gv[:8], wide=wide)
    df = frame({c: cols[c] for c in order}, pl)
    with Quiet() as q, np.errstate(all="ignore"):
        try:
            mdl.fit(df, y, sample_weight=sw)
            rec.update(outcome="ok", b=float(mdl.intercept_), w=np.asarray(mdl.coef_, float),
                       names=list(map(str, mdl.feature_names_)), terms=list(map(str, mdl.term_names_)))
        except Exception as ex:
            rec["outcome"] = f"{type(ex).__name__}: {str(ex)[:160]}"
    rec["conv"] = not any(nm in fitrun.CONV for nm in q.names)
    if parts is None:  # "<{category}>" has no place for the name of the column
        rec["names"] = ["?"] if rec["outcome"] == "ok" else []
    if rec["outcome"] != "ok":
        return dict(rec=rec, desc=desc)
    levels = decl if not bare else sorted(set(gv) - {MISS})
    full = list(m.values()) + (["p"] if wide else [])
    for k in range(nask):
        apl = pl if rng.random() < 0.8 or ints else not pl
        enc = ch(ask_encodings(mode, apl, bare))
        if ints and enc in ("str", "string"):
            enc = ch(["enum-same", "enum-rev", "enum-used", "str"])
        if k == nask - 1:  # the data of the fit once more, whatever was asked before
            vals, hvals, xv = list(gv), list(hv), x
        else:
            na = int(rng.integers(1, 5))
            pool = full if rng.random() < 0.6 else [v for v in full if v in gv]
            vals = [ch(pool) for _ in range(na)]
            hvals = [ch(hl) for _ in range(na)]
            xv = np.round(rng.normal(size=na), 3)
        acols = {"g": stored(rng, vals, enc, levels, apl, ints), "x": xv,
                 "h": stored(rng, hvals, ch(ask_encodings(mode, apl, False)), hl, apl)}
        a = dict(cols=[dict(kind="num", v=xv) if c == "x" else dict(kind="cat", vals=vals if c == "g" else hvals) for c in order],
                 lin=[], rtol=1e-9)
        with Quiet(), np.errstate(all="ignore"):
            try:
                adf = frame({c: acols[c] for c in order}, apl)
                if rng.random() < 0.5:
                    lin = mdl.linear_predictor(adf)
                else:
                    mu = mdl.predict(adf)
                    lin = mu if fam == "normal" else np.log(mu)
                a.update(outcome="ok", lin=np.asarray(lin, float))
            except Exception as ex:
                a["outcome"] = f"{args.exname(ex)}: {str(ex)[:160]}"
                a["how"] = f"pl={apl} enc={enc} vals={vals}"
        rec["asks"].append(a)
    return dict(rec=rec, desc=desc)
