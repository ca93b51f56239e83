from props.lib import *
from props.pipe import *

PAIR, CROSS, MUT = "Pairing::get_pairs", "Cross::cross", "Mutation::mutation"
PRE, KILL = "PreBirth::pre_birth", "Selection::kill"
STAGE = {PAIR: 0, CROSS: 1, MUT: 1, PRE: 2, GOAL: 3, KILL: 4, NEXT: 5}


def check(c):
    with c.part("genetic"):
        alg = Genetic(c)
        observe(c, alg, "a generation runs its stages in order", monitor, (alg.agents,), (STOP,) + tuple(STAGE))


def monitor(M, calls):
    for call in calls:
        for k, (q, body) in enumerate(call.segments()[1]):
            if k + 1 < len(call.stops):
                m = generation(M, call, q[1], body)
                if m:
                    return "generation %d of %s: %s" % (k + 1, call.which, m)
    return None


def generation(M, call, s, body):
    ev = {n: [a for x, a in body if x == n] for n in STAGE}
    role = lambda n: M.role(call.before, n)
    # every stage on the configured part
    for n, r in ((PAIR, "pairing"), (CROSS, "cross"), (MUT, "mutation")):
        for a in ev[n]:
            if not M.eq(a[0], role(r)):
                return "%s on something else than the configured part" % n
    if len(ev[PAIR]) != 1:
        return "the pairing is asked %d times" % len(ev[PAIR])
    if not M.eq(ev[PAIR][0][1], s):
        return "the pairing is asked about another population than the current one"
    old = M.agents(s)
    families = [[M.S.asint(j) for j in M.S.elems(f)] for f in M.S.elems(M.result(PAIR, ev[PAIR][0]))]
    parents = [("seq", tuple(M.point(old[j]) for j in f)) for f in families]
    if not M.same_points([a[1] for a in ev[CROSS]], parents):
        return "the crossed families are not the paired ones, each once"
    children = [x for a in ev[CROSS] for x in M.S.elems(M.result(CROSS, a))]
    if not M.same_points([a[1] for a in ev[MUT]], children):
        return "the mutated chromosomes are not all the children, each once"
    mutants = [M.result(MUT, a) for a in ev[MUT]]
    # order of the stages
    last, at = -1, None
    for n, _ in body:
        if n in STAGE:
            if STAGE[n] < last:
                return "%s after %s" % (n, at)
            last, at = STAGE[n], n
    seen = []
    for n, a in body:
        if n == CROSS:
            seen.extend(M.S.elems(M.result(CROSS, a)))
        if n == MUT and not any(M.eq(a[1], x) for x in seen):
            return "a child is mutated before it was born"
    pre = M.parts(call.before, "pre_births")
    if not M.same_list([a[0] for a in ev[PRE]], pre):
        return "the pre-birth steps are not each run once in the configured order"
    left = mutants
    for a in ev[PRE]:
        got = M.S.elems(a[2])
        if not (M.same_points(got, left) if a is ev[PRE][0] else M.same_list(got, left)):
            return "a pre-birth step does not get the children the stage before left"
        left = M.S.elems(M.out(PRE, 2, a))
    if not M.same_points([a[1] for a in ev[GOAL]], left):
        return "the evaluated chromosomes are not the remaining children, each once"
    sel = M.parts(call.before, "selections")
    if not M.same_list([a[0] for a in ev[KILL]], sel):
        return "the selections are not each applied once in the configured order"
    grown = None
    for a in ev[KILL]:
        now = M.agents(a[1])
        if grown is None:
            m = joined(M, old, left, now)
            if m:
                return m
        elif not M.same_list(now, grown):
            return "a selection does not get the population the one before left"
        grown = M.survivors(a)
    after = M.agents(following(M, call, s))
    if grown is None:
        return joined(M, old, left, after)
    if not M.same_points(after, [x for x in grown if M.alive(x)]):
        return "not exactly the killed individuals are removed"
    return None


def joined(M, old, new, now):
    if len(now) != len(old) + len(new) or not M.same_list(now[:len(old)], old):
        return "the children are not added after the existing individuals"
    if not M.same_points([M.point(x) for x in now[len(old):]], new):
        return "the added individuals are not the evaluated children"
    return None


def following(M, call, s):
    """state at the question after the one that saw s"""
    for i, j in zip(call.stops, call.stops[1:]):
        if call.events[i][1][1] is s:
            return call.events[j][1][1]
    raise Discard("no later state")
