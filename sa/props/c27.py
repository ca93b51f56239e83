from props.lib import *
from props.pipe import *

# what every kind of part is used for
USES = {"StopChecker::can_stop": "stop_checker", "Creator::create": "creator", "Pairing::get_pairs": "pairing",
        "Cross::cross": "cross", "Mutation::mutation": "mutation", "Selection::kill": "selections",
        "PreBirth::pre_birth": "pre_births", START: "loggers", RESUME: "loggers", NEXT: "loggers", FINISH: "loggers",
        "CoordinatesInitializer::get_coordinates": "coordinates_initializer",
        "VelocityInitializer::get_velocity": "velocity_initializer",
        "VelocityCalculator::calc_new_velocity": "velocity_calculator", "PostMove::post_move": "post_move",
        "PostVelocityCalc::correct_velocity": "post_velocity_calc"}
LISTS = ("selections", "pre_births", "loggers", "post_move", "post_velocity_calc")


def check(c):
    with c.part("genetic constructor"):
        names = ["goal", "stop_checker", "creator", "pairing", "cross", "mutation", "selections", "pre_births"]
        args = [c.sym(n) for n in names]
        r = c.new(GA, *args)
        c.nopanic("genetic optimizer is constructed", r)
        for n, a in zip(names[1:], args[1:]):
            c.ob("genetic optimizer: argument in the role %s" % n, r, c.get(r.ret, GA, n), a)
        pop = c.get(r.ret, GA, "population")
        c.ob("genetic optimizer: argument in the role goal", r, c.get(pop, POP, "goal"), args[0])
        c.ob("genetic optimizer: no logger at first", r, c.get(r.ret, GA, "loggers"), NIL)
        fresh(c, r, pop, POP, "individuals", "best_individual", "worst_individual")
    with c.part("genetic setters"):
        setters(c, GA, (("set_loggers", "loggers"), ("set_pairing", "pairing"), ("set_cross", "cross"),
                        ("set_mutation", "mutation"), ("set_selection", "selections"),
                        ("set_pre_birth", "pre_births"), ("set_stop_checker", "stop_checker")))
    with c.part("swarm constructor"):
        names = ["goal", "stop_checker", "coordinates_initializer", "velocity_initializer", "velocity_calculator"]
        args = [c.sym(n) for n in names]
        r = c.new(PSO, *args)
        c.nopanic("swarm optimizer is constructed", r)
        for n, a in zip(names, args):
            c.ob("swarm optimizer: argument in the role %s" % n, r, c.get(r.ret, PSO, n), a)
        for n in ("loggers", "post_move", "post_velocity_calc"):
            c.ob("swarm optimizer: no %s at first" % n, r, c.get(r.ret, PSO, n), NIL)
        fresh(c, r, c.get(r.ret, PSO, "swarm"), S, "particles", "best_particle", "worst_particle")
    with c.part("swarm setters"):
        setters(c, PSO, (("set_stop_checker", "stop_checker"), ("set_loggers", "loggers"),
                         ("set_post_moves", "post_move"), ("set_post_velocity_calc", "post_velocity_calc")))
    for label, cls in (("genetic", Genetic), ("swarm", Swarming)):
        with c.part(label + " runs"):
            alg = cls(c)
            observe(c, alg, label + " optimizer uses the configured parts and keeps them", used, ("parts",),
                    tuple(USES) + (GOAL,))
    with c.part("tournament options"):
        A = "genetic::pairing::Tournament"
        n, a, b = c.sym("families", "usize"), c.sym("partners", "usize"), c.sym("rounds", "usize")
        new = c.new(A, n)
        c.nopanic("tournament is constructed", new)
        p = c.run(c.fn(A, "partners_count"), new.ret, a)
        q = c.run(c.fn(A, "rounds_count"), new.ret, b)
        pq = c.run(c.fn(A, "rounds_count"), p.ret, b)
        qp = c.run(c.fn(A, "partners_count"), q.ret, a)
        c.ob("tournament options do not disturb each other", pq, pq.ret, qp.ret)
        t = c.sym("tournament")
        for f, x, field_ in (("partners_count", a, "partners_count"), ("rounds_count", b, "rounds_count")):
            r = c.run(c.fn(A, f), t, x)
            c.returns("option %s changes only itself" % f, r, r.ret, c.put(t, A, field_, x))
            if f == "partners_count":
                again = c.run(c.fn(A, f), r.ret, c.sym("later", "usize"))
                c.ob("a later option replaces the earlier one", again, again.ret,
                     c.put(t, A, field_, c.sym("later", "usize")))


def fresh(c, r, v, adt, agents, best, worst):
    none = agg("core::option::Option", 0, ())
    for f, x in ((agents, NIL), (best, none), (worst, none), ("iteration", ZERO)):
        c.ob("a new optimizer has found nothing yet (%s)" % f, r, c.get(v, adt, f), x)


def setters(c, adt, pairs):
    for f, role in pairs:
        with c.part(f):
            o, x = c.sym("optimizer"), c.sym("replacement")
            r = c.run(c.fn(adt, f), o, x)
            c.returns("%s replaces exactly the %s" % (f, role), r, r.arg(1), c.put(o, adt, role, x))
            c.ob("%s has no other effect" % f, r, r.trace, NIL)


def used(M, calls):
    for call in calls:
        roles = {}
        for n, a in call.events:
            r = USES.get(n)
            if n == GOAL:
                p = M.look("goal", lambda p: M.alg.goal(p), call.before)
                ok = M.eq(a[0], p)
                r = "goal"
            elif r is None:
                continue
            else:
                if r not in roles:
                    roles[r] = M.parts(call.before, r) if r in LISTS else (M.role(call.before, r),)
                ok = any(M.eq(a[0], x) for x in roles[r])
            if not ok:
                return "%s: %s on something else than the configured %s" % (call.which, n, r)
        for r in sorted(set(USES.values())):
            try:
                M.c.ix(M.alg.adt, r)
            except Exception:
                continue
            if not M.eq(M.role(call.before, r), M.role(call.after, r)):
                return "%s changes the %s of the optimizer" % (call.which, r)
    return None
