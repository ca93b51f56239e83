from props.lib import *
from props.pipe import *


def check(c):
    for label, cls in (("genetic", Genetic), ("swarm", Swarming)):
        with c.part(label):
            alg = cls(c)
            names = (GOAL, STOP) + LOG + ("Creator::create", "PreBirth::pre_birth", "PostMove::post_move",
                                          "Selection::kill")
            pieces = (alg.agents, alg.best, alg.worst)
            observe(c, alg, label + " optimizer reports each point with its own value", monitor, pieces, names)
    with c.part("accessors"):
        pass


def pairs(M, agent):
    if M.alg.adt == GA:
        return (("chromosomes", "fitness"),)
    return (("coordinates", "value"), ("best_personal_coordinates", "best_personal_value"),
            ("worst_personal_coordinates", "worst_personal_value"))


def monitor(M, calls):
    for call in calls:
        # what the caller brings with it has to be coherent already
        fresh = call.which == "find_min"
        for n, s in M.known(call):
            o = call.before
            for x in M.agents(s):
                m = wrong(M, o, x)
                if m:
                    return "%s: an agent %s" % (n, m)
            for w in ("best", "worst"):
                x = M.record(s, w)
                if x is not None:
                    m = wrong(M, o, x)
                    if m:
                        return "%s: the %s agent %s" % (n, w, m)
        if M.S.variant(call.ret, 1):
            p = M.S.vfieldof(call.ret, 1, 0)
            x, y = M.S.fieldof(p, 0), M.S.asnum(M.S.fieldof(p, 1))
            if not M.eq(y, M.goal_of(call.before, x)):
                return "the answer of %s: the value is not the goal value of the point" % call.which
    return None


def wrong(M, o, x):
    for p, v in pairs(M, x):
        if not M.eq(M.S.asnum(M.of(x, v)), M.goal_of(o, M.of(x, p))):
            return "has a %s that is not the goal value of its %s" % (v, p)
    return None
