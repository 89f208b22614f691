"""C17: the library never modifies the caller's objects."""
import collections

import frames
from vlib import TIER, Check, run_scenarios, start

start()
ck = Check("C17")
CFG = ("SPECIFICATION Spec\nINVARIANTS InputsAreTheCallers ModelChangesOnlyByFitting HandedOutIsKept Emit\nCHECK_DEADLOCK FALSE\n"
       "CONSTANT Depth = %d\n")
hists = ck.generate("FrameModel", CFG % 3, name="depth 3") + ck.generate("FrameModel", CFG % 4, name="depth 4")


def one_round(rng):
    order = rng.permutation(len(hists))
    if TIER != "thorough":
        order = order[:2500]
    items = [(hists[i], int(rng.integers(1 << 40))) for i in order]
    lines, calls, ok, fails = [], 0, 0, collections.Counter()
    first = {}
    for it, r in zip(items, run_scenarios(frames.history, items)):
        if "crash" in r:
            ck.violation(f"crash {r['crash']} {it}", r)
            continue
        for k, x in enumerate(r["lines"]):
            lines.append((x, f"{it[0]['hist']} event {k + 1} {r['desc']} seed={it[1]}"))
            calls += 1
            ok += x["outcome"] == "ok"
            if x["outcome"] != "ok":
                fails[x["outcome"]] += 1
                first.setdefault(x["outcome"], lines[-1][1])
            ck.count("event_" + x["ev"])
    for i, c in ck.trace("FrameTrace", [x for x, _ in lines], "FrameClauses"):
        ck.violation(f"{c} [{lines[i][1]}]", lines[i][0])
    ck.count("events", calls)
    ck.count("events_completed", ok)
    ck.detail["failure_examples"] = {k: first[k][:700] for k, _ in fails.most_common(8)}
    ck.detail["failures"] = dict(fails.most_common(8))
    if ok < 0.9 * calls:
        ck.violation(f"only {ok} of {calls} calls completed", dict(fails.most_common(8)))
    ck.sample(lines[0][1])


ck.rounds(one_round)
ck.finish()
