from props.lib import *
from props.pipe import *

TRAITS = ("Pairing", "Selection", "PreBirth", "StopChecker", "Logger")
EMPTYMODES = [dict(len=0, agents=0, palette=VALS, iters=4, stop=25), dict(len=1, agents=2, palette=VALS, iters=4,
              kill=100, stop=25), dict(len=1, agents=0, palette=VALS, iters=4, stop=25, special=30)] + PMODES


def check(c):
    for label, cls in (("genetic", Genetic), ("swarm", Swarming)):
        with c.part(label):
            alg = cls(c)
            for h in histories(alg):
                w = c.where(h.calls[-1][2])
                ps = [p for x in sorted(set(h.ops)) for p in quiet(alg, x)]
                c.ob("%s optimizer never panics with valid parts: %s" % (label, h.name), w, bnot(h.ok), FALSE,
                     pre=h.dom, over=alg.over(), modes=EMPTYMODES, proofs=ps, limit=9, rounds=60, steered=False)
            observe(c, alg, label + " optimizer answers the last known best or none", monitor,
                    (alg.best,), (STOP, FINISH), modes=EMPTYMODES)
    bundled(c)


def quiet(alg, which):
    o, ref = generic(alg, which)
    pre = alg.domain(o, which)
    if not ref:
        return [("%s: no single guarded loop" % which, TRUE, FALSE, TRUE)]
    r = alg._runs[which]
    return [("%s: outside the loop" % which, outcome(r.may_panic(), lambda a: a.kind == "b" and
                                                            a.args[0].op == "looppanic", False), FALSE, pre),
            ("%s: in the loop" % which,) + ref["loop panics"] + (pre,)]


def monitor(M, calls):
    for call in calls:
        r = M.record(M.state(call.after), "best")
        got = M.S.variant(call.ret, 1)
        if r is None:
            if got:
                return "%s answers something although no best solution is known" % call.which
            continue
        if not got:
            return "%s answers nothing although a best solution is known" % call.which
        p = M.S.vfieldof(call.ret, 1, 0)
        if not M.eq(M.S.fieldof(p, 0), M.point(r)) or not M.eq(M.S.asnum(M.S.fieldof(p, 1)), M.value(r)):
            return "%s does not answer the best solution known" % call.which
    return None


SEL, PB, PR = "genetic::selection::", "genetic::pre_birth::", "genetic::pairing::"
LG, ST = "tools::logging::", "tools::stopchecker::"


def ordered(c, iv):
    return forall(length(iv), lambda k: conj(is_finite(field(idx(iv, k), 0)), is_finite(field(idx(iv, k), 1)),
                                             fle(field(idx(iv, k), 0), field(idx(iv, k), 1))))


def bundled(c):
    """every part the library brings along, shown a population without individuals or a state without best solution"""
    n = c.sym("count", "usize")
    iv = c.sym("intervals")
    pop = c.put(c.sym("population"), POP, "individuals", NIL)
    pops = {"nothing was ever found": c.put(c.put(pop, POP, "best_individual", NONE), POP, "worst_individual", NONE),
            "the population died out": pop}
    parts = ((SEL + "KillFitnessNaN", (), "genetic::Selection", TRUE), (SEL + "LimitPopulation", (n,), "genetic::Selection", TRUE),
             (SEL + "vec_float::CheckChromoInterval", (iv,), "genetic::Selection", ordered(c, iv)),
             (PR + "RandomPairing", (), "genetic::Pairing", TRUE), (PR + "Tournament", (n,), "genetic::Pairing", TRUE),
             (PB + "vec_float::CheckChromoInterval", (iv,), "genetic::PreBirth", ordered(c, iv)))
    for adt, args, trait, pre in parts:
        with c.part(adt):
            method = {"Selection": "kill", "Pairing": "get_pairs", "PreBirth": "pre_birth"}[trait.split("::")[1]]
            new = c.new(adt, *args)
            for when, p in pops.items():
                me, hist = new.ret, conj(pre, new.facts)
                children = (NIL,) if method == "pre_birth" else ()
                for i in range(2):
                    r = c.run(c.fn(adt, method, trait), me, p, *children, pre=hist)
                    c.nopanic("%s::%s when %s%s" % (adt.split("::")[-1], method, when, " (again)" if i else ""), r, hist)
                    if method == "get_pairs":
                        c.ob("%s: no families when %s%s" % (adt.split("::")[-1], when, " (again)" if i else ""), r,
                             length(r.ret), ZERO, pre=hist)
                    me = r.arg(1)
    state = c.sym("state")
    none = bnot(is_variant(call("AlgorithmState::get_best_solution", state), 1))
    x, cs = c.sym("limit"), c.sym("criteria")
    for name, args, pre in (("MaxIterations", (n,), TRUE), ("Threshold", (x,), TRUE),
                            ("GoalNotChange", (n, x), TRUE),
                            ("CompositeAny", (cs,), ilt(ZERO, length(cs))), ("CompositeAll", (cs,), ilt(ZERO, length(cs)))):
        with c.part(name):
            new = c.new(ST + name, *args)
            me, hist = new.ret, conj(pre, none)
            for i in range(2):
                r = c.run(c.fn(ST + name, "can_stop", ST + "StopChecker"), me, state, pre=hist)
                c.nopanic("%s without a best solution%s" % (name, " (again)" if i else ""), r, hist)
                me = r.arg(1)
    for name, args in (("ResultOnlyLogger", (n,)), ("TimeLogger", ()), ("VerboseLogger", (n,))):
        with c.part(name):
            w = c.sym("writer")
            new = c.run(c.fn(LG + name, "new"), mref("writer"), *args, heap={"writer": w})
            log, w = new.ret, new.mem["writer"]
            for m in ("start", "resume", "next_iteration", "finish", "resume", "finish"):
                fs = [f for f in c.prog.find_method(LG + name, m, LG + "Logger")]
                if not fs:
                    continue
                r = c.run(fs[0], log, state, heap={"writer": w}, pre=none)
                c.ob("%s::%s without a best solution: no panic" % (name, m), r, r.may_panic(), FALSE, pre=none)
                log, w = r.arg(1), r.mem["writer"]
    with c.part("statistics"):
        A, L = "tools::statistics::Statistics", "tools::statistics::StatisticsLogger"
        for name, ops in (("", "s r i f r i f"), (" (continuation before any run)", "r i f r f s r i f")):
            r = c.run(c.fn(L, "new"), mref("stats"), heap={"stats": c.new(A).ret})
            log, v = r.ret, r.mem["stats"]
            for m in ops.split():
                m = {"s": "start", "r": "resume", "i": "next_iteration", "f": "finish"}[m]
                r = c.run(c.fn(L, m, LG + "Logger"), log, state, heap={"stats": v}, pre=none)
                c.nopanic("statistics: %s without a best solution%s" % (m, name), r, none)
                log, v = r.arg(1), r.mem["stats"]
