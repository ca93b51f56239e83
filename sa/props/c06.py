from props.lib import *
from props.pipe import *


WORK = ("Pairing::get_pairs", "VelocityCalculator::calc_new_velocity")
SEES = LOG + (STOP, "Pairing::get_pairs", "PreBirth::pre_birth", "Selection::kill",
              "VelocityCalculator::calc_new_velocity")


def check(c):
    for label, cls in (("genetic", Genetic), ("swarm", Swarming)):
        with c.part(label):
            alg = cls(c)
            observe(c, alg, label + " optimizer counts its iterations and asks before each", monitor,
                    ("iteration", alg.agents), SEES)


def monitor(M, calls):
    for call in calls:
        m = one(M, call)
        if m:
            return "%s: %s" % (call.which, m)
    return None


def one(M, call):
    if not call.stops:
        return "the stop criterion is never asked"
    it0 = 0 if call.which == "find_min" else M.iteration(M.state(call.before))
    checker = M.role(call.before, "stop_checker")
    head, segs = call.segments()
    if any(n in WORK for n, _ in head):
        return "an iteration starts before the stop criterion was asked"
    for n, a in head:
        if n in LOG and M.iteration(a[1]) != it0:
            return "%s shows iteration %d instead of %d" % (n, M.iteration(a[1]), it0)
    prev = None
    for k, (q, body) in enumerate(segs):
        if not M.eq(q[0], checker):
            return "something else than the configured stop criterion is asked"
        if M.iteration(q[1]) != it0 + k:
            return "before iteration %d the stop criterion is shown number %d instead of %d" % (
                k + 1, M.iteration(q[1]), it0 + k)
        shown = [a[1] for n, a in (head if prev is None else prev) if n in LOG]
        if shown and not M.eq(shown[-1], q[1]):
            return "the stop criterion is asked with a state that is not the current one"
        if prev is None and call.which == "next_iterations" and not M.eq(q[1], M.state(call.before)):
            return "the stop criterion is asked with a state that is not the current one"
        last = k == len(segs) - 1
        if M.stopped(q):
            if not last:
                return "the stop criterion is asked again after it answered true"
            if any(n in WORK for n, _ in body):
                return "an iteration starts although the stop criterion answered true"
            number = {n: it0 + k for n in SEES}
        else:
            if last:
                return "no iteration follows although the stop criterion answered false"
            done = [n for n, _ in body if n in WORK]
            agents = len(M.agents(q[1]))
            if M.alg.adt == GA and len(done) != 1 or M.alg.adt == PSO and agents and not 1 <= len(done) <= agents:
                return "iteration %d: not exactly one iteration between two questions" % (k + 1)
            number = {n: it0 + k + (n == NEXT) for n in SEES}
        for n, a in body:
            if n in SEES and M.iteration(a[1]) != number[n]:
                return "%s is shown iteration %d instead of %d" % (n, M.iteration(a[1]), number[n])
        prev = body
    if M.iteration(M.state(call.after)) != it0 + len(segs) - 1:
        return "%d iterations were completed, the number grew from %d to %d" % (
            len(segs) - 1, it0, M.iteration(M.state(call.after)))
    return None
