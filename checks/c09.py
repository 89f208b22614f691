"""C09: a formula fit equals the fit of the design it denotes."""
import collections

import formulas
from vlib import TIER, Check, run_scenarios, start

start()
ck = Check("C09")
CFG = ("SPECIFICATION Spec\nINVARIANTS NoDuplicates Ordered Idempotent PlusAdds StarIsCross PiecesAreDisjoint RankLaw Emit\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS\n MaxItems = %d\n Printing = %s\n Ranks = %s\n")
if TIER == "thorough":
    behs = ck.generate("FormulaModel", CFG % (3, "TRUE", "TRUE"), name="three items")
else:
    behs = ck.generate("FormulaModel", CFG % (2, "TRUE", "TRUE"), name="two items")
ck.exhaustive.append("all formulas of the pool up to the number of items; drop-first designs checked by rank")
fails = collections.Counter()


def one_round(rng):
    order = rng.permutation(len(behs))[: 3000 if TIER == "thorough" else 3500]
    items = [(behs[i], int(rng.integers(1 << 40)), 5, bool(k % 3 == 0)) for k, i in enumerate(order)]
    recs = []
    for it, r in zip(items, run_scenarios(formulas.job, items)):
        if "crash" in r:
            ck.violation(f"crash {r['crash']} {it}", r)
            continue
        recs.append((r["rec"], f"{r['desc']} seed={it[1]}"))
        ck.count("fits")
        if r["rec"]["outcome"] != "ok":
            ck.count("fits_refused")
            fails[r["rec"]["outcome"][:60]] += 1
        for a in r["rec"]["asks"]:
            ck.count("asks")
            ck.count("asks_refused", a["outcome"] != "ok")
        ck.count("explicit_comparisons", len(r["rec"]["same"]))
    for i, c in ck.trace("FormulaTrace", [x for x, _ in recs], "FormulaClauses"):
        ck.violation(f"{c} [{recs[i][1]}]", recs[i][0])
    ck.detail["refusals"] = dict(fails.most_common(8))
    ck.sample(recs[0][1])


ck.rounds(one_round)
ck.finish()
