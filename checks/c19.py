"""C19: convergence is reported honestly."""
import collections

import stops
from vlib import TIER, Check, run_scenarios, start

start()
ck = Check("C19")
CFG = ('SPECIFICATION Spec\nINVARIANTS WithinLimit Honest StopsAtOnce Emit\nPROPERTY Terminates\nCONSTANTS\n'
       '  MaxIter = %d\n  StepTols = {TRUE, FALSE}\n')
behs = ck.generate("StopModel", CFG % 5)


def one_round(rng):
    k = 60 if TIER == "quick" else 150
    jobs = [(b, int(rng.integers(1 << 40))) for b in behs for _ in range(k)]
    res = run_scenarios(stops.rows_job, jobs)
    res += run_scenarios(stops.none_job, [int(rng.integers(1 << 40)) for _ in range(15 * k)])
    lines, seen = [], collections.Counter()
    for r in res:
        if r is None:
            continue
        if "crash" in r:
            ck.violation(f"crash {r['crash']}", r)
        elif "bad" in r:
            ck.violation(r["bad"], r)
        else:
            lines.append(r)
            b = r["beh"]
            seen[b if isinstance(b, str) else f"{b['why']}"] += 1
    for i, c in ck.trace("StopTrace", [r["rec"] for r in lines], "StopClauses"):
        ck.violation(f"{c} {lines[i]['beh']} [{lines[i]['desc']}]", lines[i])
    for k2, v in sorted(seen.items()):
        ck.count(k2, v)
    for r in lines[:2]:
        ck.sample(r["desc"])


ck.rounds(one_round)
ck.finish()
