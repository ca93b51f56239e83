from props.lib import *
from props.pipe import *


def check(c):
    for label, cls in (("genetic", Genetic), ("swarm", Swarming)):
        with c.part(label):
            alg = cls(c)
            work = ("Pairing::get_pairs", "VelocityCalculator::calc_new_velocity")
            observe(c, alg, label + " optimizer calls its loggers", monitor,
                    (alg.agents, alg.best, alg.worst, "iteration"), (GOAL, STOP) + work + LOG)


def monitor(M, calls):
    for call in calls:
        m = one(M, call)
        if m:
            return "%s: %s" % (call.which, m)
    return None


def one(M, call):
    loggers = M.parts(call.before, "loggers")
    ev = call.events
    initial = ev[call.stops[0]][1][1] if call.stops else M.state(call.after)
    asked = call.stops[0] if call.stops else len(ev)
    n = sum(not M.stopped(ev[i][1]) for i in call.stops)     # iterations
    who = {}
    for i, (name, a) in enumerate(ev):
        if name in LOG:
            for k, l in enumerate(loggers):
                if M.eq(l, a[0]):
                    who[i] = k
                    break
            else:
                return "%s on something that is not an attached logger" % name
    want = ([START] if call.which == "find_min" else []) + [RESUME] + [NEXT] * n + [FINISH]
    for k in range(len(loggers)):
        got = [ev[i][0] for i in sorted(who) if who[i] == k]
        if got != want:
            return "logger %d of %d: %s instead of %s" % (k, len(loggers), short(got), short(want))
    # positions
    work = ("Pairing::get_pairs", "VelocityCalculator::calc_new_velocity")
    first = min([i for i, (name, _) in enumerate(ev) if name in work] or [len(ev)])
    count = {}
    for i, (name, a) in enumerate(ev):
        if name not in LOG:
            continue
        s = a[1]
        if name == START:
            if any(x == GOAL for x, _ in ev[i:first if first < len(ev) else asked]):
                return "start before the initial evaluations"
            if not same(M, s, initial):
                return "start shows another state than the initial one"
        elif name == RESUME:
            if i > first:
                return "resume after the first iteration began"
            if not same(M, s, initial):
                return "resume shows another state than the current one"
            if call.which == "next_iterations" and not same(M, s, M.state(call.before)):
                return "resume shows another state than the current one"
        elif name == NEXT:
            k = count[who[i]] = count.get(who[i], 0) + 1
            if k >= len(call.stops) or not call.stops[k - 1] < i < call.stops[k]:
                return "the call for iteration %d is not at its end" % k
            if any(x == GOAL or x in work for x, _ in ev[i:call.stops[k]]):
                return "the call for iteration %d comes before the iteration is complete" % k
            if not same(M, s, ev[call.stops[k]][1][1]):
                return "iteration %d: the state shown is not the fully updated one" % k
            if M.iteration(s) != M.iteration(ev[call.stops[k - 1]][1][1]) + 1:
                return "iteration %d: the iteration number shown is not updated" % k
        elif name == FINISH:
            if call.stops and i < call.stops[-1] and any(x == GOAL or x in work for x, _ in ev[i:]):
                return "finish before the last iteration is complete"
            if not same(M, s, M.state(call.after)):
                return "finish shows another state than the final one"
    return None


def same(M, a, b):
    return M.eq(a, b)


def short(l):
    return " ".join(x.split("::")[1] for x in l)
