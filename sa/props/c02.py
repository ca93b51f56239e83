from props.lib import *
from props.pipe import *


def check(c):
    with c.part("swarm"):
        alg = Swarming(c)
        observe(c, alg, "swarm and particle records are the best and worst so far", monitor,
                (alg.agents, alg.best, alg.worst), (GOAL, STOP, "VelocityCalculator::calc_new_velocity") + LOG)


def monitor(M, calls):
    best = worst = None           # extremes of the evaluations so far
    for call in calls:
        if call.which == "find_min":
            best = worst = None
            personal = None
        else:
            s = M.state(call.before)
            best, worst = (None if M.record(s, w) is None else M.value(M.record(s, w)) for w in ("best", "worst"))
            personal = [own(M, x) for x in M.agents(s)]
        iteration = [(best, worst)]
        done = (best, worst)      # without those of an unfinished iteration
        for n, a in call.events + [("end", None)]:
            if n == GOAL:
                y = M.goal_of(call.before, a[1])
                best = y if best is None or M.rank(y, best) < 0 else best
                worst = y if worst is None or M.rank(y, worst) > 0 else worst
                continue
            s = M.state(call.after) if n == "end" else a[1] if n == STOP or n in LOG or n.startswith("VelocityCalc") else None
            if s is None:
                continue
            inside = n.startswith("VelocityCalculator")
            if not inside:
                done = (best, worst)
            for w, x, y in (("best", best, done[0]), ("worst", worst, done[1])):
                r = M.record(s, w)
                if x is None and y is None:
                    if r is not None and not inside:
                        return "%s: a %s record although nothing was evaluated" % (n, w)
                    continue
                if r is None:
                    if y is not None:
                        return "%s: no %s record although %s was evaluated" % (n, w, show_val(y))
                    continue
                v = M.value(r)
                if M.rank(v, x) != 0 and (not inside or y is None or M.rank(v, y) != 0):
                    return "%s: the recorded %s is %s, the %s evaluation so far %s" % (n, w, show_val(v), w, show_val(x))
            m, personal = particles(M, n, s, personal, inside)
            if m:
                return m
        if best is not None:
            if M.S.variant(call.ret, 1) == 0:
                return "%s answers nothing although something was evaluated" % call.which
            v = M.S.asnum(M.S.fieldof(M.S.vfieldof(call.ret, 1, 0), 1))
            if M.rank(v, best) != 0:
                return "the answer %s is not the best evaluation %s" % (show_val(v), show_val(best))
    return None


def own(M, x):
    return tuple(M.S.asnum(M.of(x, f)) for f in ("best_personal_value", "worst_personal_value"))


def particles(M, n, s, personal, inside):
    now = M.agents(s)
    if personal is None:
        personal = [(M.value(x), M.value(x)) for x in now]
    if len(personal) != len(now):
        return None, personal
    out = []
    for k, (x, (b, w)) in enumerate(zip(now, personal)):
        v = M.value(x)
        b = v if M.rank(v, b) < 0 else b
        w = v if M.rank(v, w) > 0 else w
        pb, pw = own(M, x)
        if M.rank(pb, b) != 0:
            return "%s: particle %d records %s as its best, it has seen %s" % (n, k, show_val(pb), show_val(b)), None
        if M.rank(pw, w) != 0:
            return "%s: particle %d records %s as its worst, it has seen %s" % (n, k, show_val(pw), show_val(w)), None
        out.append((b, w))
    return None, out
