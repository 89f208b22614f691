"""C02: bounds, linear inequality and monotonicity constraints: feasible and optimal among
feasible points.  Monotone instances are enumerated by MonotoneModel and replayed."""
import re

import numpy as np

import fitrun
import gen
from ineq import FAMS, draw_ineq, finish_record, run_ineq
from vlib import Check, Quiet, TIER, run_scenarios, start

start()
ck = Check("C02")


# ------------------------------------------------------------------ bounds, by every way to fit
def draw_bounds(rng):
    kinds, p = None, None
    if rng.random() < 0.2:  # bounds on a constant column
        p = int(rng.integers(1, 5))
        kinds = [str(rng.choice(["norm", "bin", "sparse", "shift"])) for _ in range(p)]
        kinds[rng.integers(p)] = "const"
    sc = fitrun.problem(rng, bounds=True, kinds=kinds, p=p)
    sc["how"] = "fit"
    if rng.random() < 0.3 and sc["est"]["alpha"] not in (None, 0.0) and sc["tol"] <= 1e-6:
        sc["how"] = ["path", "cv"][rng.integers(2)]
        sc["est"].pop("start_params", None)
    return sc


def run_bounds(sc):
    import glum

    e, how = sc["est"], sc.get("how", "fit")
    if how == "fit":
        return fitrun.run_fit(sc)
    al = e["alpha"]
    if how == "path":
        m = fitrun.estimator(sc, alpha=[3 * al, al], alpha_search=True)
    else:
        kw = {k: v for k, v in e.items() if k != "alpha"}
        m = glum.GeneralizedLinearRegressorCV(family=gen.family(sc["fam"])[0], link=gen.link(sc["link"], sc["fam"])[0],
                                              alphas=[al, 1.5 * al], cv=3, **kw)
    rec = fitrun.run_fit(sc, m)
    if how == "cv":
        rec["mustconv"] = False  # the folds are smaller problems
        if rec["outcome"] == "ok":
            rec["alpha"] = float(m.alpha_)
    return rec


# ------------------------------------------------------------------ monotone formulas
LEVELS = {"g": [["low", "mid", "high"], ["1", "2", "10"], ["a", "b", "c"], [5, 20, 100],
                ["<5", "5-10", "10+"]],
          "h": [["u", "v"], ["z", "y"], [False, True]]}


def draw_mono(rng, inst):
    ch = lambda s: s[rng.integers(len(s))]
    fam, lk = ch(FAMS[:6])
    n = int(rng.integers(70, 110))
    lev = {k: LEVELS[k][rng.integers(len(LEVELS[k]))] for k in LEVELS}
    sc = dict(inst=inst, fam=fam, link=lk, lev=lev, n=n, fi=bool(rng.random() < 0.7),
              drop=bool(rng.random() < 0.4), solver=ch(["auto"] * 5 + ["irls-ls-monotonic", "trust-constr"]),
              alpha=ch([0.01, 0.1, 0.5]), seed=int(rng.integers(1 << 30)), wt=bool(rng.random() < 0.4),
              scale=bool(rng.random() < 0.25), cwrap=bool(rng.random() < 0.3),
              off=bool(rng.random() < 0.3), cv=bool(rng.random() < 0.1), path=bool(rng.random() < 0.15),
              ordered=bool(rng.random() < 0.6), sep=ch([":", ":", "*", "@"]))
    if fam == "gamma":
        sc["link"] = "log"
    if sc["scale"]:
        sc["fi"] = True
    return sc


def mono_data(sc):
    import pandas as pd

    rng = np.random.default_rng(sc["seed"])
    n = sc["n"]
    code = {k: rng.integers(len(v), size=n) for k, v in sc["lev"].items()}
    for k, v in sc["lev"].items():
        code[k][: len(v)] = np.arange(len(v))
    df = pd.DataFrame({"x": np.round(rng.normal(size=n), 3), "z": np.round(rng.uniform(size=n), 3)})
    for k, v in sc["lev"].items():
        df[k] = pd.Categorical.from_codes(code[k], categories=v, ordered=sc["ordered"])
    lin = 0.4 * df["x"] * rng.choice([-1, 1]) + 0.8 * np.sin(5 * df["z"]) \
        + rng.choice([-0.6, 0.0, 0.6], 3)[code["g"]] + rng.choice([-0.4, 0.4], 2)[code["h"]]
    off = np.round(rng.uniform(-0.3, 0.3, n), 3) if sc["off"] else None
    df["y"] = gen.response(rng, sc["fam"], sc["link"], lin.to_numpy()[:, None], off)
    s = np.round(rng.uniform(0.5, 2, n), 3) if sc["wt"] else None
    return df, s, off


def run_mono(sc):
    import formulaic
    import glum

    df, s, off = mono_data(sc)
    tok = {"x": "x", "g": "C(g)" if sc["cwrap"] else "g", "h": "h", "s": "bs(z, df=4)", "m": ["np.hypot(x, z)", "{x + z}"][sc["seed"] % 2]}
    formula = "y ~ " + " + ".join(":".join(tok[f] for f in t) for t in sc["inst"]["terms"])
    mono = {m["v"]: m["dir"] for m in sc["inst"]["mono"]}
    kw = dict(l1_ratio=0, fit_intercept=sc["fi"], scale_predictors=sc["scale"],
              drop_first=sc["drop"], solver=sc["solver"], gradient_tol=None if sc["solver"] == "trust-constr" else 1e-5,
              max_iter=3000 if sc["solver"] == "trust-constr" else 300, monotonic_constraints=mono,
              formula=formula, family=gen.family(sc["fam"])[0], link=gen.link(sc["link"], sc["fam"])[0],
              interaction_separator=sc["sep"])
    if sc["cv"]:
        m = glum.GeneralizedLinearRegressorCV(alphas=[sc["alpha"], 1.5 * sc["alpha"]], cv=3, **kw)
    else:
        al = dict(alpha=[2 * sc["alpha"], sc["alpha"]], alpha_search=True) if sc["path"] else dict(alpha=sc["alpha"])
        m = glum.GeneralizedLinearRegressor(**al, **kw)
    out, names = "ok", []
    with Quiet() as q, np.errstate(all="ignore"):
        try:
            m.fit(df, sample_weight=s, offset=off)
            names = list(m.feature_names_)
        except Exception as ex:
            out = f"{type(ex).__name__}: {str(ex)[:120]}"
    # the columns, from their names
    spl = None
    cols, X = [], []
    for name in names:
        parts, col = [], np.ones(len(df))
        for part in name.split(sc["sep"]):
            mt = re.fullmatch(r"(.*?)(?:\[(.*)\])?", part)
            fac = {v.strip("{}"): k for k, v in tok.items()}[mt.group(1)]
            if fac == "x":
                parts.append(dict(f="x", i=1))
                col = col * df["x"].to_numpy()
            elif fac == "m":
                parts.append(dict(f="m", i=1))
                col = col * (np.hypot(df["x"], df["z"]) if sc["seed"] % 2 == 0 else df["x"] + df["z"]).to_numpy()
            elif fac == "s":
                if spl is None:
                    spl = np.asarray(formulaic.model_matrix("0 + bs(z, df=4)", df))
                i = int(mt.group(2))
                parts.append(dict(f="s", i=i))
                col = col * spl[:, i - 1]
            else:
                lv = [str(v) for v in sc["lev"][fac]]
                i = lv.index(mt.group(2))
                parts.append(dict(f=fac, i=i + 1))
                col = col * (df[fac].astype(str) == lv[i]).to_numpy()
        cols.append(parts)
        X.append(col)
    rowset = []
    if out == "ok":
        of = {"s": "z", "m": "xz"}
        facs = sorted({f for t in sc["inst"]["terms"] for f in t})
        asked = {(f, r["dir"]) for r in sc["inst"]["mono"] for f in facs if r["v"] in of.get(f, f)}
        for r in [dict(f=f, dir=d) for f, d in sorted(asked)]:
            groups = {}
            for j, c in enumerate(cols):
                mine = [q_["i"] for q_ in c if q_["f"] == r["f"]]
                if mine:
                    key = frozenset((q_["f"], q_["i"]) for q_ in c if q_["f"] != r["f"])
                    groups.setdefault(key, []).append((mine[0], j))
            sg = 1.0 if r["dir"] == "increasing" else -1.0
            for g in groups.values():
                g.sort()
                if len(g) == 1:
                    row = np.zeros(len(cols))
                    row[g[0][1]] = -sg
                    rowset.append(row)
                for (_, a), (_, b) in zip(g, g[1:]):
                    row = np.zeros(len(cols))
                    row[a], row[b] = sg, -sg
                    rowset.append(row)
    X = np.array(X).T if X else np.zeros((len(df), 0))
    rs = dict(X=X, y=df["y"].to_numpy(float), s=s, off=off, fam=sc["fam"], link=sc["link"],
              est=dict(kw, alpha=sc["alpha"]), tol=1e-5, fmt="df")
    rec = fitrun.base_record(rs)
    rec.update(outcome=out, b=0.0, w=[], mustconv=False)
    if out == "ok":
        rec.update(b=float(m.intercept_), w=np.asarray(m.coef_, float))
        if sc["cv"]:
            rec["alpha"] = float(m.alpha_)
    rec["conv"] = not any(n_ == "ConvergenceWarning" for n_ in q.names)
    finish_record(rec, rowset, np.zeros(len(rowset)),
                  "trust-constr" if sc["solver"] == "trust-constr" else "irls-ls-monotonic",
                  mk="mono", cols=cols, mono=sc["inst"]["mono"])
    rec["formula"] = formula
    rec.update(facs=sorted({f for t in sc["inst"]["terms"] for f in t}), outkind=out.split(":")[0])
    return rec


def draw_any(item):
    return {"ineq": run_ineq, "mono": run_mono, "bounds": run_bounds}[item[0]](item[1])


cfgm = ("SPECIFICATION Spec\nINVARIANT SignifiesMonotone Scope Contradiction Emit\nCHECK_DEADLOCK FALSE\n"
        "CONSTANTS\n MaxTerms = %d\n MaxCols = %d\n")
INST = ck.generate("MonotoneModel", cfgm % ((2, 6) if TIER == "thorough" else (2, 4)))
ck.count("monotone_instances", len(INST))


def one_round(rng):
    insts = [INST[i] for i in rng.permutation(len(INST))]
    insts = insts if TIER == "thorough" else insts[:1200]
    items = [("ineq", draw_ineq(rng)) for _ in range(1000)] \
        + [("mono", draw_mono(rng, i)) for i in insts] \
        + [("bounds", draw_bounds(rng)) for _ in range(1500)]
    recs = run_scenarios(draw_any, items, timeout=200)
    lines, blines = [], []
    for (kind, sc), r in zip(items, recs):
        what = sc.get("how", "") + " " + fitrun.describe(sc) if kind != "mono" else {k: v for k, v in sc.items() if k != "seed"}
        if "crash" in r:
            ck.violation(f"{kind}: crashed: {r['crash']} [{what}]", sc)
            continue
        ck.count(kind + "_fits")
        ck.count(kind + "_converged", r["conv"])
        if kind == "bounds":
            if r["outcome"] == "ok" or r["mustconv"]:
                blines.append((sc, r, what))
        else:
            if kind == "mono":
                what = f"{r.pop('formula')} {what}"
            sv = sc["solver"] if kind == "mono" else "auto-" + sc["est"]["solver"]
            if r["outcome"] != "ok" and (sv == "trust-constr" or sv.startswith("auto-")
                                         and "irls" not in sv):
                continue  # scipy gave up on a wild step, and said so
            if r["outcome"] == "ok" and r["conv"]:
                act = np.asarray(r["lam"]) > 1e-4
                ck.count(kind + "_with_active_constraints", bool(act.any()))
            lines.append((sc, r, what))
    for i, c in ck.trace("IneqTrace", [r for _, r, _ in lines], "IneqClauses"):
        ck.violation(f"{c} [{lines[i][2]}]", {"scenario": lines[i][0], "record": lines[i][1]})
    for i, c in ck.trace("FitTrace", [r for _, r, _ in blines], "FitClauses", label="bounds"):
        ck.violation(f"{c} [{blines[i][2]}]", {"scenario": blines[i][0], "record": blines[i][1]})
    for k in ("ineq", "mono", "bounds"):
        d = ck.detail["counts"]
        if d[k + "_converged"] < 0.85 * d[k + "_fits"]:
            ck.violation(f"only {d[k + '_converged']} of {d[k + '_fits']} {k} fits converged", {})
    ck.sample({"problem": str(lines[0][2]), "coef": lines[0][1]["w"], "multipliers": lines[0][1]["lam"]})


ck.rounds(one_round)
ck.notes += ["trust-constr (scipy) stops on the Lagrangian gradient whatever its barrier parameter, so "
             "its multipliers satisfy complementarity only to 5e-3 and stationarity to 3e-4"]
ck.finish()
