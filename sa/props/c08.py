from props.lib import *
from props.pipe import *


def check(c):
    with c.part("swarm"):
        alg = Swarming(c)
        observe(c, alg, "every particle's point went through all post-move steps", swarm, (alg.agents,),
                (GOAL, STOP, "PostMove::post_move", "CoordinatesInitializer::get_coordinates"))
    with c.part("genetic"):
        alg = Genetic(c)
        observe(c, alg, "every child went through all pre-birth steps", genetic, (alg.agents,),
                (GOAL, STOP, "PreBirth::pre_birth", "Selection::kill", NEXT, "Mutation::mutation"))


def swarm(M, calls):
    for call in calls:
        parts = M.parts(call.before, "post_move")
        if not parts:
            continue
        outs = [(M.eq(a[0], parts[-1]) and passed(M, call.events[:i], parts[:-1], a[1]), M.out(n, 1, a))
                for i, (n, a) in enumerate(call.events) if n == "PostMove::post_move"]
        old = M.agents(M.state(call.before)) if call.which == "next_iterations" else ()
        for i in call.stops:
            for x in M.agents(call.events[i][1][1]):
                p = M.point(x)
                if not any(ok and M.eq(o, p) for ok, o in outs) and not any(M.eq(p, M.point(y)) for y in old):
                    return "a particle is at a point that did not come out of the configured post-move steps"
    return None


def passed(M, events, parts, x):
    """x came out of the steps in this order"""
    if not parts:
        return True
    for i, (n, a) in enumerate(events):
        if n == "PostMove::post_move" and M.eq(a[0], parts[-1]) and M.eq(M.out(n, 1, a), x) and \
                passed(M, events[:i], parts[:-1], a[1]):
            return True
    return False


def genetic(M, calls):
    for call in calls:
        parts = M.parts(call.before, "pre_births")
        if not parts:
            continue
        for q, body in call.segments()[1]:
            births = [(i, a) for i, (n, a) in enumerate(body) if n == "PreBirth::pre_birth"]
            points = [a[1] for n, a in body if n == GOAL]
            if not points:
                continue
            left = None
            for p in parts:
                for i, a in births:
                    if M.eq(a[0], p) and (left is None or M.eq(a[2], left)):
                        left = M.out("PreBirth::pre_birth", 2, a)
                        break
                else:
                    return "children are evaluated that did not pass through every pre-birth step in order"
            left = M.S.elems(left)
            for x in points:
                if not any(M.eq(x, y) for y in left):
                    return "a child is evaluated that the last pre-birth step did not leave"
            old = [M.point(x) for x in M.agents(q[1])]
            grown = [a[1] for n, a in body if n in ("Selection::kill", NEXT)]
            for s in grown:
                for x in M.agents(s):
                    if not any(M.eq(M.point(x), y) for y in list(left) + old):
                        return "an individual is stored that the last pre-birth step did not leave"
    return None
