"""C16: what an estimator computes depends on the current call, not on its history."""
import life
from vlib import TIER, Check, run_scenarios, start

start()
ck = Check("C16")
DEPTH = 5
cfg = ('SPECIFICATION Spec\nINVARIANT FreshEquivalent\nPROPERTY ObserversPure\nINVARIANT Emit\nCONSTANTS\n'
       '  Pars = {"p1", "p2"}\n  Datas = {"d1", "d2"}\n  Bads = {"any"}\n  Depth = %d\n' % DEPTH)
hists = ck.generate("Lifecycle", cfg)
ck.notes.append("histories: every operation sequence of the model up to the depth; parameter settings, data sets and "
                "queries are drawn from tables")


def one_round(rng):
    k = 900 if TIER == "quick" else 3000
    pick = rng.choice(len(hists), min(k, len(hists)), replace=False)
    jobs = [(hists[int(i)], int(rng.integers(1 << 40))) for i in pick]
    recs = run_scenarios(life.live, jobs)
    lines = []
    for j, r in zip(jobs, recs):
        if "crash" in r:
            ck.violation(f"{r['crash']} in {[o['op'] for o in j[0]]}", r)
        else:
            lines.append(r)
    for i, c in ck.trace("LifeTrace", lines, "LifeClauses"):
        ck.violation(f"{c} {lines[i]['what']}", lines[i])
    ck.count("histories", len(lines))
    ck.count("operations", sum(len(r["ops"]) for r in lines))
    for r in lines[:3]:
        ck.sample(r["what"])


ck.rounds(one_round)
ck.finish()
