from props.lib import *
from props.pipe import *


def check(c):
    with c.part("genetic"):
        alg = Genetic(c)
        observe(c, alg, "best and worst individuals are the extremes of the generation", monitor,
                (alg.agents, alg.best, alg.worst), (GOAL, STOP) + LOG)


def monitor(M, calls):
    for call in calls:
        last = None
        for i, (n, a) in enumerate(call.events + [("end", None)]):
            if n == "end":
                s = M.state(call.after)
            elif n == STOP or n == NEXT or n == FINISH:
                s = a[1]
            else:
                continue
            generations = sum(1 for j in call.stops if j < i) - (0 if n == NEXT else 1)
            if n == "end" or n == FINISH:
                generations = len(call.stops) - 1
            elif n == STOP:
                generations += 1
            if generations > 0:
                m = extremes(M, s, last)
                if m:
                    return "%s after %d generations: %s" % (n, generations, m)
            if n == STOP:
                last = s
        r = M.record(M.state(call.after), "best")
        if (M.S.variant(call.ret, 1) == 0) != (r is None):
            return "%s answers %s" % (call.which, "nothing although there is a best individual" if r is not None
                                      else "something although there is no best individual")
        if r is not None:
            y = M.S.vfieldof(call.ret, 1, 0)
            if not M.eq(M.S.fieldof(y, 0), M.point(r)) or not M.eq(M.S.asnum(M.S.fieldof(y, 1)), M.value(r)):
                return "the answer of %s is not the best individual of the last generation" % call.which
    return None


def extremes(M, s, last):
    agents = M.agents(s)
    values = [M.value(x) for x in agents]
    numbers = [v for v in values if v == v]
    for w, pick in (("best", min), ("worst", max)):
        r = M.record(s, w)
        if not agents:
            o = M.record(last, w)
            if (r is None) != (o is None) or r is not None and not M.eq(r, o):
                return "nobody survived, but the %s individual changed" % w
            continue
        if r is None:
            return "no %s individual although somebody survived" % w
        v = M.value(r)
        if numbers and (v != v or v != pick(numbers)) or not numbers and v == v:
            return "the %s value is %s among %s" % (w, show_val(v), " ".join(show_val(x) for x in values))
        if not any(M.eq(M.point(r), M.point(x)) and M.eq(v, M.value(x)) for x in agents):
            return "the %s individual is not one of the population" % w
    return None
