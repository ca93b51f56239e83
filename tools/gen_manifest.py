#!/usr/bin/env python3
"""Write /verif/MANIFEST.json: one check per property module in sa/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C40": "convergence depends on the random search trajectory and the goal landscape; no static argument bounds it",
    "C41": "a statement about distributions of a random number generator's output; the structural part (which range, "
           "which distribution, how many draws) is decided under C09, C13-C17, C28",
    "C42": "needs a floating-point error analysis over unbounded vectors and data-dependent magnitudes; the value "
           "graphs here are over exact arithmetic",
    "C43": "wall-clock time is not in the source; the part that is (one line, measured from the latest resume) is "
           "decided under C24",
}
BASE = ("static analysis: dataflow over rustc MIR into gated value graphs (interprocedural, loops solved as recurrences), "
        "decided by global value numbering; where that leaves a difference, by random interpretation of the graphs; here: ")
HOW = {
    "pipe": "whole optimizer calls against a reference step on any state, and a monitor of this property over six "
            "kinds of histories",
    "form": "closed form of every entry point against the documented one, with the guards of all panics",
    "C04": "panic guards of all comparisons, and order types of the ranking",
    "C11": "judge over (population before, after, surplus) of the value graph",
    "C12": "closed form of the kill, survivors of whole optimizer calls, and a type-level rule on who can revive",
    "C13": "closed form with draw sites matched by a bijection",
    "C15": "bit provenance: the source of every bit, for every width and position",
    "C19": "closed form of the answer and of the criterion's state after it, and order of the parts asked",
    "C24": "ordered write effects, compared as text values",
    "C25": "API-surface rules over visibility, signatures and trait impls, and value graphs of the exported mutators",
    "C26": "panic guards of every entry point unreachable from an empty population",
    "C27": "field effects of every constructor, setter and builder",
    "C34": "effect rule over all functions of the compiler's MIR: references to statics and thread locals that can "
           "change, calls with ambient effects, clock reads by call-graph reachability, shared cells by type",
    "C35": "provenance rule: backward dataflow slices of every seed, through callers and fields, to entropy or a caller's "
           "argument; no copied generators, no own number sources",
    "C36": "termination rule over all loops, iterator chains and recursive calls of the MIR: every cycle of a loop advances "
           "something its exits depend on (finite iterator, counter with fixed bound, shrinking or growing container, stop criterion)",
    "C37": "inventory of unsafe operations and implementations in the MIR; reachability of their preconditions' negation from "
           "every exported function, decided on the gated value graphs",
}
PIPE = ("C01", "C02", "C03", "C05", "C06", "C07", "C08", "C28", "C29")
NOTE = ("Decides the property for every input of the stated domain where value numbering identifies the graphs "
        "(evidence lists the outcome per obligation); where it cannot, the two graphs are compared under random "
        "interpretations of their opaque inputs, which refutes but does not prove. Assumes exact real arithmetic, no "
        "overflow in integer additions and products, opaque plug-in results determined by (method, arguments, order), and the models of std and "
        "rand functions in sa/models.py.")


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
        elif os.path.exists(os.path.join(HERE, "sa", "props", p.lower() + ".py")):
            t = BASE + HOW.get(p, HOW["pipe" if p in PIPE else "form"])
            checks.append({"property": p, "quick_cmd": "python3 check.py " + p,
                           "thorough_cmd": "python3 check.py %s --thorough" % p,
                           "technique": t, "level": "other", "level_note": NOTE})
        else:
            na.append({"property": p, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo. known-findings.txt lists repaired defects. Design: DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
