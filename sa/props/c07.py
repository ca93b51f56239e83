from props.lib import *
from props.pipe import *


def check(c):
    for label, cls in (("genetic", Genetic), ("swarm", Swarming)):
        with c.part(label):
            alg = cls(c)
            observe(c, alg, label + " optimizer starts afresh and continues with everything", monitor,
                    (alg.agents, alg.best, alg.worst, "iteration"),
                    (GOAL, STOP, "Creator::create", "CoordinatesInitializer::get_coordinates",
                     "PostMove::post_move") + LOG)


def monitor(M, calls):
    for call in calls:
        m = begun(M, call) if call.which == "find_min" else continued(M, call)
        if m:
            return "%s: %s" % (call.which, m)
    return None


def first_states(call):
    return [(n, a[1]) for n, a in call.events[:call.stops[0] + 1] if n == STOP or n in LOG]


def begun(M, call):
    if not call.stops:
        return None
    ga = M.alg.adt == GA
    if ga:
        points = M.S.elems(M.result("Creator::create", (M.role(call.before, "creator"),)))
    else:
        points = M.S.elems(M.result("CoordinatesInitializer::get_coordinates",
                                    (M.role(call.before, "coordinates_initializer"),)))
    for n, s in first_states(call):
        agents = M.agents(s)
        if M.iteration(s) != 0:
            return "%s of a fresh run shows iteration %d" % (n, M.iteration(s))
        if len(agents) != len(points):
            return "%s of a fresh run shows %d agents instead of %d" % (n, len(agents), len(points))
        if (ga or not M.parts(call.before, "post_move")) and not M.same_list([M.point(x) for x in agents], points):
            return "%s of a fresh run shows other agents than the initial ones" % n
        for w in ("best", "worst"):
            r = M.record(s, w)
            if r is not None and not any(M.eq(M.point(r), M.point(x)) and M.eq(M.value(r), M.value(x)) for x in agents):
                return "%s of a fresh run shows a %s agent that is none of its own" % (n, w)
    # nothing found earlier can be reported
    seen = [a[1] for n, a in call.named(GOAL)]

    def known(p):
        return any(M.eq(p, x) for x in seen)
    for n, s in M.known(call):
        for w in ("best", "worst"):
            r = M.record(s, w)
            if r is not None and not known(M.point(r)):
                return "%s: the %s agent was not found in this run" % (n, w)
        if n in (STOP, "end") or n in LOG:
            for x in M.agents(s):
                if not known(M.point(x)):
                    return "%s: an agent was not evaluated in this run" % n
    if M.S.variant(call.ret, 1) and not known(M.S.fieldof(M.S.vfieldof(call.ret, 1, 0), 0)):
        return "the answer was not found in this run"
    return None


def continued(M, call):
    b = M.state(call.before)
    for n, s in first_states(call) if call.stops else []:
        if not M.eq(s, b):
            return "%s shows a state that is not the one left before" % n
    return None
