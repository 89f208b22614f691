"""C08: categorical columns."""
import cats
from vlib import TIER, Check, run_scenarios, start

start()
ck = Check("C08")
CFG = ("SPECIFICATION Spec\nINVARIANTS MeaningIsKept Distinct FittedIsKnown NotSingular Emit\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS\n MaxNew = %d\n Printing = %s\n")
behs = ck.generate("CatModel", CFG % (1, "TRUE"), name="one new row")
if TIER == "thorough":
    ck.model("CatModel", CFG % (3, "FALSE"), name="three new rows")
ck.exhaustive.append("every stored column over three levels, one unseen level and missing values, all orders and options")


def one_round(rng):
    order = rng.permutation(len(behs))
    items = [(behs[i], int(rng.integers(1 << 40)), 8) for i in order]
    recs = []
    for it, r in zip(items, run_scenarios(cats.job, items)):
        if "crash" in r:
            ck.violation(f"crash {r['crash']} {it}", r)
            continue
        recs.append((r["rec"], f"{r['desc']} model={it[0]} seed={it[1]}"))
        ck.count("fits")
        ck.count("fits_refused", r["rec"]["outcome"] != "ok")
        for a in r["rec"]["asks"]:
            ck.count("asks")
            ck.count("asks_refused", a["outcome"] != "ok")
    for i, c in ck.trace("CatTrace", [x for x, _ in recs], "CatClauses"):
        ck.violation(f"{c} [{recs[i][1]}]", recs[i][0])
    ck.sample(recs[0][1])


ck.rounds(one_round)
ck.finish()
