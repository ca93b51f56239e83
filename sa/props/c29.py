from props.lib import *
from props.pipe import *

CALC, CORRECT, MOVE = "VelocityCalculator::calc_new_velocity", "PostVelocityCalc::correct_velocity", "PostMove::post_move"


def check(c):
    with c.part("swarm"):
        alg = Swarming(c)
        observe(c, alg, "an iteration moves every particle once by its new velocity", monitor,
                (alg.agents, alg.best, alg.worst), (STOP, GOAL, CALC, CORRECT, MOVE, NEXT))


def monitor(M, calls):
    for call in calls:
        for k, (i, j) in enumerate(zip(call.stops, call.stops[1:])):
            m = iteration(M, call, call.events[i][1][1], call.events[j][1][1], call.events[i + 1:j])
            if m:
                return "iteration %d of %s: %s" % (k + 1, call.which, m)
    return None


def iteration(M, call, s, after, body):
    old, new = M.agents(s), M.agents(after)
    if len(old) != len(new):
        return "%d particles become %d" % (len(old), len(new))
    calc = [a for n, a in body if n == CALC]
    if len(calc) != len(old):
        return "%d velocities are calculated for %d particles" % (len(calc), len(old))
    rule, goal = M.role(call.before, "velocity_calculator"), M.role(call.before, "goal")
    filters, moves = M.parts(call.before, "post_velocity_calc"), M.parts(call.before, "post_move")
    for k, a in enumerate(calc):
        if not M.eq(a[0], rule):
            return "something else than the configured velocity rule is asked"
        if not M.eq(a[2], old[k]):
            return "velocity %d is not calculated for particle %d" % (k, k)
        seen = M.agents(a[1])
        if len(seen) != len(old) or not all(M.eq(x, y) or j < k and M.eq(x, z)
                                            for j, (x, y, z) in enumerate(zip(seen, old, new))):
            return "the velocity of particle %d is not calculated from the current swarm" % k
        for w in ("best", "worst"):
            r, r0 = M.record(a[1], w), M.record(s, w)
            if (r is None) != (r0 is None) or r is not None and not M.eq(r, r0):
                return "the %s record of the swarm changes before all particles have moved" % w
        v = M.result(CALC, a)
        for p in filters:
            if not any(n == CORRECT and M.eq(b[0], p) and M.eq(b[1], v) for n, b in body):
                return "the velocity of particle %d does not pass every filter in order" % k
            v = M.result(CORRECT, (p, v))
        if not M.eq(M.of(new[k], "velocity"), v):
            return "particle %d does not keep its new velocity" % k
        x = M.S.elems(M.point(old[k]))
        y = M.S.elems(v)
        p = ("seq", tuple(evalr_.nadd(M.S.asnum(a_), M.S.asnum(b_)) for a_, b_ in zip(x, y)))
        if len(x) != len(y):
            return None
        for q in moves:
            if not any(n == MOVE and M.eq(b[0], q) and M.eq(b[1], p) for n, b in body):
                return "the new position of particle %d is not the old one plus the velocity, passed through the " \
                       "post-move steps" % k
            p = M.out(MOVE, 1, (q, p))
        if not M.eq(M.point(new[k]), p):
            return "particle %d is not at its new position" % k
        if not M.eq(M.value(new[k]), M.goal_of(call.before, p)):
            return "particle %d does not have the value of its new position" % k
    if len([1 for n, b in body if n == CORRECT]) != len(filters) * len(old):
        return "the velocity filters are not applied once per particle"
    if len([1 for n, b in body if n == MOVE]) != len(moves) * len(old):
        return "the post-move steps are not applied once per particle"
    points = [b[1] for n, b in body if n == GOAL]
    if not M.same_points(points, [M.point(x) for x in new]):
        return "the particles are not evaluated exactly once each"
    return None
