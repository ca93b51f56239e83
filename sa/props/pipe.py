"""The two optimizers: reference generation and swarm iteration, and the events of whole runs."""
from props.lib import *
from evalr import Discard, Undecided, ARGS, isnum, BOTV, INFV, show_val
import interp

GA = "genetic::GeneticOptimizer"
PSO = "particleswarm::ParticleSwarmOptimizer"
NONE = agg("core::option::Option", 0, ())
STOP, GOAL = "StopChecker::can_stop", "Goal::get"
START, RESUME, NEXT, FINISH = ("Logger::" + x for x in ("start", "resume", "next_iteration", "finish"))
LOG = (START, RESUME, NEXT, FINISH)


def typed(v):
    tm.UINTS.add(v)
    return v


class Alg(object):
    """one optimizer and its state type"""

    def __init__(self, c):
        self.c = c
        self._v = {}

    def role(self, o, name):
        return self.c.get(o, self.adt, name)

    def state(self, o):
        return self.role(o, self.state_field)

    def with_state(self, o, s):
        return self.c.put(o, self.adt, self.state_field, s)

    def each(self, o, role, name, *args):
        """event `name` for every part of a list role"""
        l = self.role(o, role)
        return vec(length(l), lambda k: ev(name, idx(l, k), *args))

    def run(self, o, which):
        tr = {"find_min": "Optimizer", "next_iterations": "IterativeOptimizer"}[which]
        return self.c.run(self.c.fn(self.adt, which, tr), o)

    def answer(self, o):
        b = self.c.get(self.state(o), self.sadt, self.best)
        a = vfield(b, 1, 0)
        return ite(is_variant(b, 1), agg("core::option::Option", 1, (
            tup(self.c.get(a, self.aadt, self.point), self.c.get(a, self.aadt, self.value)),)), NONE)

    # ---------------------------------------------------------- reference of a whole call
    def reference(self, r, before, which):
        """(part of the behaviour -> (code, reference)) of one call on the optimizer value `before`; {} when the
        call is not built around one loop guarded by the stop criterion"""
        c = self.c
        recs = [x for x in r.loops if x.N is interp.INFN and (TRACE, ()) in x.phis and (TRACE, ()) not in x.closed]
        if len(recs) != 1:
            return {}
        rec = recs[0]
        if which == "find_min":
            o1, t1 = self.initial(before)
        else:
            o1, t1 = before, NIL
        t1 = cat(t1, self.each(o1, "loggers", RESUME, self.state(o1)))
        h, th = rec.header.mem["arg1"], rec.header.mem[TRACE]
        stop = res(STOP, self.role(h, "stop_checker"), self.state(h))
        o2, t2 = self.step(h)
        m = {rec.K: rec.F}
        for l in rec.phis:
            if l not in rec.closed:
                v = mk("loopval", rec.id, str(l), rec.outer)
                if rec.phis[l] in tm.UINTS:
                    tm.UINTS.add(v)
                m[rec.phis[l]] = v
        f, tf = tm.subst(h, m), tm.subst(th, m)
        out = {"entry trace": (rec.entry.mem[TRACE], t1), "guard": (rec.guard, bnot(boolatom(stop))),
               "step trace": (rec.back.mem[TRACE], cat(th, t2)),
               "exit trace": (r.trace, cat(tf, lit(ev(STOP, self.role(f, "stop_checker"), self.state(f))),
                                           self.each(f, "loggers", FINISH, self.state(f)))),
               "answer": (r.ret, self.answer(f)), "final": (r.arg(1), f)}
        e, b = rec.entry.mem["arg1"], rec.back.mem["arg1"]
        for n, at in self.pieces():
            out["entry " + n] = (at(e), at(o1))
            out["step " + n] = (at(b), at(o2))
        out["loop panics"] = (disj(*[x[0] for x in rec.panics]) if rec.panics else FALSE,
                              band(rec.guard, self.step_panics(h)))
        return out

    def pieces(self):
        c = self.c
        out = []
        n = len(c.prog.fields(self.adt))
        si = c.ix(self.adt, self.state_field)
        m = len(c.prog.fields(self.sadt))
        known = {c.ix(self.sadt, f): f for f in (self.agents, self.best, self.worst, "iteration")}
        for i in range(n):
            if i != si:
                out.append(("parts", lambda o, i=i: field(o, i)))
        for j in range(m):
            out.append((known.get(j, "parts"), lambda o, j=j: field(field(o, si), j)))
        # several pieces share a name: keep them apart
        cnt = {}
        res_ = []
        for nme, f in out:
            cnt[nme] = cnt.get(nme, 0) + 1
            res_.append((nme if cnt[nme] == 1 else "%s.%d" % (nme, cnt[nme]), f))
        return res_

    # ---------------------------------------------------------- views for monitors
    def view(self, key, mkgraph):
        if key not in self._v:
            p = fresh_phi("v")
            self._v[key] = (p, decide_.strip(mkgraph(p)))
        return self._v[key]

    def look(self, S, key, mkgraph, value):
        p, g = self.view(key, mkgraph)
        return S.ev(g, {p: value})


def genetic_least(x, y):
    return ite(is_nan(x), GREATER, ite(is_nan(y), LESS, ite(eqn(x, y, "f"), EQUAL, ite(lt(x, y, "f"), LESS, GREATER))))


def genetic_most(x, y):
    return ite(is_nan(x), LESS, ite(is_nan(y), GREATER, ite(eqn(x, y, "f"), EQUAL, ite(lt(x, y, "f"), LESS, GREATER))))


class Genetic(Alg):
    adt, sadt, aadt, state_field = GA, POP, I, "population"
    agents, best, worst, point, value = "individuals", "best_individual", "worst_individual", "chromosomes", "fitness"

    def born(self, o, inds, chromosomes, pop):
        """(individuals, trace) after adding evaluated chromosomes"""
        c = self.c
        goal = c.get(pop, POP, "goal")
        n = length(chromosomes)
        fields = {c.ix(I, "chromosomes"): lambda k: idx(chromosomes, k),
                  c.ix(I, "fitness"): lambda k: res(GOAL, goal, idx(chromosomes, k)), c.ix(I, "alive"): lambda k: TRUE}
        new = vec(n, lambda k: agg(I, 0, tuple(fields[i](k) for i in range(len(fields)))))
        return cat(inds, new), vec(n, lambda k: ev(GOAL, goal, idx(chromosomes, k)))

    def initial(self, o):
        c = self.c
        creator = self.role(o, "creator")
        pop = self.state(o)
        for f, v in (("individuals", NIL), (self.best, NONE), (self.worst, NONE), ("iteration", ZERO)):
            pop = c.put(pop, POP, f, v)
        inds, t = self.born(o, NIL, res("Creator::create", creator), pop)
        o1 = self.with_state(o, c.put(pop, POP, "individuals", inds))
        return o1, cat(lit(ev("Creator::create", creator)), t, self.each(o1, "loggers", START, self.state(o1)))

    def pairs(self, o):
        return res("Pairing::get_pairs", self.role(o, "pairing"), self.state(o))

    def step_panics(self, o):
        pairs, n = self.pairs(o), length(self.c.get(self.state(o), POP, "individuals"))
        return exists(length(pairs), lambda i: exists(length(idx(pairs, i)), lambda j: bnot(
            ilt(typed(idx(idx(pairs, i), j)), n))))

    def step(self, o):
        c = self.c
        P = self.state(o)
        inds = c.get(P, POP, "individuals")
        pairs = self.pairs(o)
        cross, mut = self.role(o, "cross"), self.role(o, "mutation")
        pre, sel = self.role(o, "pre_births"), self.role(o, "selections")

        def parents(i):
            f = idx(pairs, i)
            return vec(length(f), lambda j: c.get(idx(inds, typed(idx(f, j))), I, "chromosomes"))
        children = flatten(length(pairs), lambda i: res("Cross::cross", cross, parents(i)))
        mutants = vec(length(children), lambda k: res("Mutation::mutation", mut, idx(children, k)))

        def filtered_(n):
            return folded(n, mutants, lambda k, a: evout("PreBirth::pre_birth", 2, idx(pre, k), P, a))
        all_, tg = self.born(o, inds, filtered_(length(pre)), P)

        def selected(n):
            return folded(n, all_, lambda k, a: vec(length(a), lambda j: idx(evout(
                "Selection::kill", 1, idx(sel, k), c.put(P, POP, "individuals", a)), j)))
        left = selected(length(sel))
        alive_ = filtered(length(left), lambda k: alive(c, idx(left, k)), lambda k: idx(left, k))
        P1 = c.put(P, POP, "individuals", alive_)
        val = lambda x: c.get(x, I, "fitness")

        least, most = genetic_least, genetic_most
        some_ = ilt(ZERO, length(alive_))

        def record(x, old):
            w = c.put(c.whole(x, I), I, "alive", alive(c, x))
            return ite(some_, agg("core::option::Option", 1, (w,)), old)
        P1 = c.put(P1, POP, self.best, record(best_of(alive_, val, least), c.get(P, POP, self.best)))
        P1 = c.put(P1, POP, self.worst, record(worst_of(alive_, val, most), c.get(P, POP, self.worst)))
        P1 = c.put(P1, POP, "iteration", add(c.get(P, POP, "iteration"), ONE))
        o1 = self.with_state(o, P1)
        t = cat(lit(ev(STOP, self.role(o, "stop_checker"), P)),
                lit(ev("Pairing::get_pairs", self.role(o, "pairing"), P)),
                vec(length(pairs), lambda i: ev("Cross::cross", cross, parents(i))),
                vec(length(children), lambda k: ev("Mutation::mutation", mut, idx(children, k))),
                vec(length(pre), lambda k: ev("PreBirth::pre_birth", idx(pre, k), P, filtered_(k))), tg,
                vec(length(sel), lambda k: ev("Selection::kill", idx(sel, k),
                                              c.put(P, POP, "individuals", selected(k)))),
                self.each(o1, "loggers", NEXT, P1))
        return o1, t


class Swarming(Alg):
    adt, sadt, aadt, state_field = PSO, S, P, "swarm"
    agents, best, worst, point, value = "particles", "best_particle", "worst_particle", "coordinates", "value"

    def moved(self, post, x, n=None):
        return folded(length(post) if n is None else n, x,
                      lambda k, a: evout("PostMove::post_move", 1, idx(post, k), a))

    def moves(self, post, x):
        return vec(length(post), lambda k: ev("PostMove::post_move", idx(post, k), self.moved(post, x, k)))

    def particle(self, **kw):
        c = self.c
        return agg(P, 0, tuple(kw[f] for f in sorted(kw, key=lambda f: c.ix(P, f))))

    def initial(self, o):
        c = self.c
        ci, vi, goal, post = (self.role(o, x) for x in ("coordinates_initializer", "velocity_initializer", "goal",
                                                       "post_move"))
        xs, vs = res("CoordinatesInitializer::get_coordinates", ci), res("VelocityInitializer::get_velocity", vi)
        n = length(xs)
        pts = vec(n, lambda k: self.moved(post, idx(xs, k)))

        def make(k):
            x, g = idx(pts, k), res(GOAL, goal, idx(pts, k))
            return self.particle(coordinates=x, velocity=idx(vs, k), value=g, best_personal_coordinates=x,
                                 best_personal_value=g, worst_personal_coordinates=x, worst_personal_value=g)
        ps = vec(n, make)
        sw = self.state(o)
        some_ = ilt(ZERO, n)
        val = lambda x: c.get(x, P, "value")
        opt = lambda x: agg("core::option::Option", 1, (c.whole(x, P),))
        for f, v in (("particles", ps), (self.best, ite(some_, opt(best_of(ps, val)), NONE)),
                     (self.worst, ite(some_, opt(worst_of(ps, val)), NONE)), ("iteration", ZERO)):
            sw = c.put(sw, S, f, v)
        o1 = self.with_state(o, sw)
        t = cat(lit(ev("CoordinatesInitializer::get_coordinates", ci)), lit(ev("VelocityInitializer::get_velocity", vi)),
                flatten(n, lambda k: self.moves(post, idx(xs, k))), vec(n, lambda k: ev(GOAL, goal, idx(pts, k))),
                self.each(o1, "loggers", START, sw))
        return o1, t

    def step_panics(self, o):
        return FALSE

    def step(self, o):
        c = self.c
        W = self.state(o)
        ps = c.get(W, S, "particles")
        n = length(ps)
        calc, goal, post, pvc = (self.role(o, x) for x in ("velocity_calculator", "goal", "post_move",
                                                          "post_velocity_calc"))

        def velocity(k, a, upto=None):
            v = res("VelocityCalculator::calc_new_velocity", calc, c.put(W, S, "particles", a), idx(a, k))
            return folded(length(pvc) if upto is None else upto, v,
                          lambda j, x: res("PostVelocityCalc::correct_velocity", idx(pvc, j), x))

        def start(k, a):
            v, x = velocity(k, a), c.get(idx(a, k), P, "coordinates")
            return vec(imin(length(x), length(v)), lambda j: add(idx(x, j), idx(v, j)))

        def next_(k, a):
            p = idx(a, k)
            x = self.moved(post, start(k, a))
            g = res(GOAL, goal, x)
            bv, wv = c.get(p, P, "best_personal_value"), c.get(p, P, "worst_personal_value")
            q = p
            up, down = better(g, bv), better(wv, g)
            for f, v in (("coordinates", x), ("velocity", velocity(k, a)), ("value", g),
                         ("best_personal_coordinates", ite(up, x, c.get(p, P, "best_personal_coordinates"))),
                         ("best_personal_value", ite(up, g, bv)),
                         ("worst_personal_coordinates", ite(down, x, c.get(p, P, "worst_personal_coordinates"))),
                         ("worst_personal_value", ite(down, g, wv))):
                q = c.put(q, P, f, v)
            return q

        def upto(k):
            return folded(k, ps, lambda j, a: tm.upd(a, j, next_(j, a)))
        new = upto(n)
        val = lambda x: c.get(x, P, "value")
        opt = lambda x: agg("core::option::Option", 1, (x,))
        some_ = ilt(ZERO, n)

        def record(x, old, beats):
            x = c.whole(x, P)
            return ite(some_, ite(is_variant(old, 1), ite(beats(val(x), val(vfield(old, 1, 0))), opt(x), old), opt(x)),
                       old)
        W1 = c.put(W, S, "particles", new)
        W1 = c.put(W1, S, self.best, record(best_of(new, val), c.get(W, S, self.best), better))
        W1 = c.put(W1, S, self.worst, record(worst_of(new, val), c.get(W, S, self.worst), lambda x, y: better(y, x)))
        W1 = c.put(W1, S, "iteration", add(c.get(W, S, "iteration"), ONE))
        o1 = self.with_state(o, W1)

        def one(k):
            a = upto(k)
            return cat(lit(ev("VelocityCalculator::calc_new_velocity", calc, c.put(W, S, "particles", a), idx(a, k))),
                       vec(length(pvc), lambda j: ev("PostVelocityCalc::correct_velocity", idx(pvc, j), velocity(k, a, j))),
                       self.moves(post, start(k, a)), lit(ev(GOAL, goal, self.moved(post, start(k, a)))))
        t = cat(lit(ev(STOP, self.role(o, "stop_checker"), W)), flatten(n, one), self.each(o1, "loggers", NEXT, W1))
        return o1, t


# ==================================================================== monitors
class Call(object):
    """one call of find_min or next_iterations, interpreted"""

    def __init__(self, S, alg, which, v):
        self.which = which
        self.before, self.ret, tr, self.after = v[3]
        if self.before == BOTV or self.after == BOTV or tr == BOTV or self.ret == BOTV:
            raise Discard("undefined run")
        self.events = []
        for e in S.elems(tr):
            if e == BOTV or e[0] != "ev":
                raise Discard("undefined event")
            if any(x == BOTV for x in e[2]):
                raise Discard("undefined argument")
            self.events.append((e[1], e[2]))
        self.stops = [i for i, (n, _) in enumerate(self.events) if n == STOP]

    def named(self, *names):
        return [(n, a) for n, a in self.events if n in names]

    def segments(self):
        """events before the first question to the stop criterion, between two questions, after the last"""
        cut = self.stops + [len(self.events)]
        return self.events[:cut[0]], [(self.events[i][1], self.events[i + 1:j]) for i, j in zip(cut, cut[1:])]


class Monitor(object):
    """what can be observed of interpreted runs"""

    def __init__(self, S, alg):
        self.S, self.alg, self.c = S, alg, alg.c

    def look(self, key, mk_, v):
        return self.alg.look(self.S, key, mk_, v)

    def eq(self, a, b):
        return self.S.eqv(a, b)

    def agents(self, state):
        return self.S.elems(self.look("agents", lambda p: self.c.get(p, self.alg.sadt, self.alg.agents), state))

    def part(self, state, f):
        return self.look("state." + f, lambda p: self.c.get(p, self.alg.sadt, f), state)

    def of(self, agent, f):
        return self.look("agent." + f, lambda p: self.c.get(p, self.alg.aadt, f), agent)

    def point(self, agent):
        return self.of(agent, self.alg.point)

    def value(self, agent):
        return self.S.asnum(self.of(agent, self.alg.value))

    def alive(self, agent):
        return self.S.asbool(self.look("alive", lambda p: alive(self.c, p), agent))

    def record(self, state, which):
        """best or worst agent of a state or None"""
        r = self.part(state, getattr(self.alg, which))
        if self.S.variant(r, 1) == 0:
            return None
        return self.S.vfieldof(r, 1, 0)

    def iteration(self, state):
        return self.S.asint(self.part(state, "iteration"))

    def state(self, o):
        return self.look("optimizer.state", lambda p: self.alg.state(p), o)

    def parts(self, o, role):
        return self.S.elems(self.look("optimizer." + role, lambda p: self.alg.role(p, role), o))

    def role(self, o, role):
        return self.look("optimizer." + role, lambda p: self.alg.role(p, role), o)

    def goal_of(self, o, point):
        goal = self.look("goal", lambda p: self.alg.goal(p), o)
        return self.S.asnum(self.S.handle(("res", GOAL, evalr_.digest((self.S.canon(goal), self.S.canon(point))))))

    def result(self, name, args):
        """what an opaque call with these arguments returned"""
        return self.S.handle(("res", name, evalr_.digest(tuple(self.S.canon(x) for x in args))))

    def out(self, name, i, args):
        """what an opaque call with these arguments left in its i-th argument"""
        return self.S.handle(("evout", name, i, evalr_.digest(tuple(self.S.canon(x) for x in args))))

    def survivors(self, args):
        """the individuals a selection left, the killed ones among them"""
        h = self.out("Selection::kill", 1, args)
        return tuple(self.S.handle(("idx", h[1], j)) for j in range(len(self.agents(args[1]))))

    def stopped(self, args):
        return self.S.asbool(self.result(STOP, args))

    def rank(self, x, y):
        """-1, 0, 1: order of swarm values, everything not finite ties behind the finite"""
        fx, fy = not isinstance(x, float), not isinstance(y, float)
        return (x > y) - (x < y) if fx and fy else fy - fx

    def same_points(self, xs, ys):
        """equal as multisets"""
        ys = list(ys)
        if len(xs) != len(ys):
            return False
        for x in xs:
            for i, y in enumerate(ys):
                if self.eq(x, y):
                    del ys[i]
                    break
            else:
                return False
        return True

    def same_list(self, xs, ys):
        return len(xs) == len(ys) and all(self.eq(x, y) for x, y in zip(xs, ys))

    def filtered(self, events, parts, name, x, at=None):
        """x after passing through the parts (each an event name(part, x)), or None when some step did not happen"""
        for p in parts:
            for n, a in events:
                if n == name and self.eq(a[0], p) and self.eq(a[-1], x):
                    x = self.out(name, len(a) - 1, a)
                    break
            else:
                return None
        return x

    def known(self, call):
        """states of the call at which something outside sees them, in order: (label, state)"""
        out = []
        for n, a in call.events:
            if n in LOG or n == STOP or n in ("Pairing::get_pairs", "PreBirth::pre_birth", "Selection::kill",
                                              "VelocityCalculator::calc_new_velocity"):
                out.append((n, a[1]))
        out.append(("end", self.state(call.after)))
        return out


import evalr as evalr_
Genetic.goal = lambda self, o: self.c.get(self.state(o), POP, "goal")
Swarming.goal = lambda self, o: self.role(o, "goal")


def stops_after(S, key):
    """a stop criterion answers true after some number of different questions"""
    asked = S.__dict__.setdefault("asked", {})
    seen = asked.setdefault(S.canon(ARGS[key[2]][0]), [])
    if key[2] not in seen:
        seen.append(key[2])
    n = S.mode.get("iters", 3)
    r = S.rnd("iterations", len(asked)) % 100
    return seen.index(key[2]) >= (0 if r < 8 else 1 + r % n)


def size(S, key):
    """number of initial agents: a later run may have another one"""
    n = S.mode.get("agents", 2)
    if ARGS[key[2]][0] in LATER:
        return (n, n, n, 0, 1, n + 1)[S.rnd("later size") % 6]
    return n


def edges(S, key):
    """in a large population the first and the last agent are sometimes the extreme ones"""
    if not S.mode.get("edge"):
        return None
    x = ARGS[key[2]][-1]
    if not (isinstance(x, tuple) and x[0] == "h" and x[1][0] == "idx"):
        return None
    r = S.rnd("edge")
    if x[1][2] == 0:
        return Fraction((-1000, 1000, -1000)[r % 3])
    if x[1][2] == S.mode["agents"] - 1:
        return Fraction((1000, -1000, -2000)[r % 3])
    return None


LATER = [("h", ("sym", "later " + w)) for w in ("creator", "coordinates_initializer", "velocity_initializer")]


def earlier(S, key):
    n = S.mode.get("agents", 2)
    return (n, n, n, 0, 1, n + 1)[S.rnd("earlier size") % 6]


def genetic_over(c):
    FI, AL = c.ix(POP, "individuals"), c.ix(I, "alive")

    def index(S, key):
        pop = ARGS[key[1][1][2]][1]
        n = S.seqlen(S.fieldof(pop, FI))
        if n == 0:
            raise Discard("no individual to address")
        return Fraction(S.rnd("pair", key) % n)

    def families(S, key):
        pop = ARGS[key[2]][1]
        if S.seqlen(S.fieldof(pop, FI)) == 0:
            return 0
        return S.rnd("families", key) % 3

    def selected(S, key):
        """a selection may permute and kill individuals, nothing else"""
        d, i = key[1][3], key[2]
        inds = S.elems(S.fieldof(ARGS[d][1], FI))
        n = len(inds)
        if not 0 <= i < n:
            return BOTV
        r = S.rnd("selection", d)
        j = (i + (r >> 4) % n) % n if r % 3 == 0 else i
        x = inds[j]
        a = S.asbool(S.fieldof(x, AL)) and S.rnd("kill", d, i) % 100 >= S.mode.get("kill", 35)
        f = [S.fieldof(x, k) for k in range(3)]
        f[AL] = a
        return ("agg", I, 0, tuple(f))

    over = {
        (("res", "Pairing::get_pairs"), ("idx",), ("idx",)): index,
        ("len", ("res", "Pairing::get_pairs")): families,
        ("len", ("res", "Pairing::get_pairs"), ("idx",)): lambda S, key: (0, 1, 1, 2, 2, 3, 3)[S.rnd("parents", key) % 7],
        ("len", ("res", "Cross::cross")): lambda S, key: S.rnd("children", key) % 3,
        ("len", ("evout", "PreBirth::pre_birth", 2)): lambda S, key: S.rnd("born", key) % 3,
        (("evout", "Selection::kill", 1), ("idx",)): selected,
        ("len", ("evout", "Selection::kill", 1)): lambda S, key: S.seqlen(S.fieldof(ARGS[key[3]][1], FI)),
        ("len", ("res", "Creator::create")): size,
        ("len", ("sym", "earlier points")): earlier,
        (("res", STOP),): stops_after,
        (("res", GOAL),): edges,
    }
    return over


def swarm_over(c):
    return {("len", ("res", "CoordinatesInitializer::get_coordinates")): size,
            ("len", ("res", "VelocityInitializer::get_velocity")): size,
            ("len", ("sym", "earlier points")): earlier,
            (("res", STOP),): stops_after, (("res", GOAL),): edges}


Genetic.starters = ("creator",)
Swarming.starters = ("coordinates_initializer", "velocity_initializer")
Genetic.over = lambda self: genetic_over(self.c)
Swarming.over = lambda self: swarm_over(self.c)

VALS = [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(2), Fraction(-3, 2), Fraction(3), Fraction(5, 2),
        Fraction(7, 4), Fraction(-4), Fraction(10), Fraction(-31, 11), Fraction(29)]
PMODES = [dict(len=2, agents=3, palette=VALS, iters=3, stop=30, kill=15),
          dict(len=2, agents=3, palette=VALS, iters=3, stop=40, kill=60, special=20),
          dict(len=1, agents=2, palette=VALS, iters=3, kill=35, special=10),
          dict(len=2, agents=2, palette=VALS[:3], iters=4, stop=25, special=35, kill=20),
          dict(len=3, agents=4, palette=VALS, iters=2, stop=40, kill=30, special=60, nanonly=True),
          dict(len=0, agents=2, palette=VALS, iters=3, kill=50), dict(len=1, agents=1, iters=3, palette=VALS, special=15),
          dict(len=2, agents=0, iters=3, palette=VALS),
          dict(len=2, agents=6, palette=VALS, iters=2, stop=30, kill=30, special=25, intmax=40),
          dict(len=2, agents=5, palette=VALS, iters=3, stop=30, kill=10, intmax=40),
          dict(len=1, agents=3, palette=VALS, iters=5, stop=15, kill=5, special=10)]

HISTORIES = [("a run", "fresh", ("find_min",)), ("a continued run", "fresh", ("find_min", "next_iterations")),
             ("a second run", "fresh", ("find_min", "find_min")),
             ("a continuation before any run", "fresh", ("next_iterations",)),
             ("a continuation of any state", "used", ("next_iterations",)),
             ("a run of a used optimizer", "used", ("find_min",))]


class History(object):
    def __init__(self, alg, name, start, ops):
        c = alg.c
        self.alg, self.name, self.ops = alg, name, ops
        o = alg.fresh() if start == "fresh" else alg.used()
        self.o0 = o
        self.calls, self.values, panics = [], [], []
        for i, which in enumerate(ops):
            if i:
                # a run goes on only under another criterion
                o = c.run(c.fn(alg.adt, "set_stop_checker"), o, c.sym("later stop_checker")).arg(1)
                if which == "find_min":
                    # and its initial agents need not be those of the run before
                    for w in alg.starters:
                        o = c.put(o, alg.adt, w, c.sym("later " + w))
            r = alg.run(o, which)
            after = r.arg(1)
            if after is None or r.ret is None:
                raise Missing("%s never returns" % which)
            self.calls.append((which, o, r))
            self.values.append(tup(o, r.ret, r.trace, after))
            panics.append(r.may_panic())
            o = after
        self.n = len(ops)
        self.code = tup(*self.values)
        self.ok = bnot(disj(*panics)) if panics else TRUE
        self.dom = conj(*[alg.domain(o, w) for w, o, _ in self.calls])

    def judge(self, monitor):
        def j(S, v):
            M = Monitor(S, self.alg)
            calls = [Call(S, self.alg, w, x) for (w, _, _), x in zip(self.calls, v[3])]
            return monitor(M, calls)
        return j


def fresh_genetic(self):
    c = self.c
    names = ["goal", "stop_checker", "creator", "pairing", "cross", "mutation", "selections", "pre_births"]
    o = c.new(GA, *[c.sym(n) for n in names]).ret
    return c.run(c.fn(GA, "set_loggers"), o, c.sym("loggers")).arg(1)


def fresh_swarm(self):
    c = self.c
    names = ["goal", "stop_checker", "coordinates_initializer", "velocity_initializer", "velocity_calculator"]
    o = c.new(PSO, *[c.sym(n) for n in names]).ret
    for f, n in (("set_loggers", "loggers"), ("set_post_moves", "post_moves"), ("set_post_velocity_calc",
                                                                               "post_velocity_calcs")):
        o = c.run(c.fn(PSO, f), o, c.sym(n)).arg(1)
    return o


def used_genetic(self):
    """an optimizer in any state a run can leave behind"""
    c = self.c
    o = c.sym("optimizer")
    pop = self.state(o)
    goal = c.get(pop, POP, "goal")
    points = c.sym("earlier points")

    def one(x):
        kw = {"chromosomes": x, "fitness": res(GOAL, goal, x), "alive": TRUE}
        return agg(I, 0, tuple(kw[f] for f in sorted(kw, key=lambda f: c.ix(I, f))))
    inds = vec(length(points), lambda k: one(idx(points, k)))
    val = lambda x: c.get(x, I, "fitness")
    some_ = ilt(ZERO, length(inds))
    old = boolatom(c.sym("something was found before"))
    for f, w, n in ((self.best, best_of(inds, val, genetic_least), "best"),
                    (self.worst, worst_of(inds, val, genetic_most), "worst")):
        pop = c.put(pop, POP, f, ite(some_, opt(c.whole(w, I)), ite(old, opt(one(c.sym("earlier " + n))), NONE)))
    return self.with_state(o, c.put(pop, POP, "individuals", inds))


def used_swarm(self):
    c = self.c
    o = c.sym("optimizer")
    goal = self.role(o, "goal")
    g = lambda x: res(GOAL, goal, x)
    now, up, down, vel = (c.sym(n) for n in ("earlier points", "earlier personal bests", "earlier personal worsts",
                                            "earlier velocities"))

    def pick(a, b, first):
        return ite(first(g(a), g(b)), a, b), ite(first(g(a), g(b)), g(a), g(b))

    def one(k):
        x = idx(now, k)
        (bp, bv), (wp, wv) = pick(idx(up, k), x, better), pick(idx(down, k), x, lambda a, b: better(b, a))
        return self.particle(coordinates=x, velocity=idx(vel, k), value=g(x), best_personal_coordinates=bp,
                             best_personal_value=bv, worst_personal_coordinates=wp, worst_personal_value=wv)
    ps = vec(length(now), one)
    sw = c.put(self.state(o), S, "particles", ps)
    some_ = ilt(ZERO, length(ps))
    for f, w, rec_ in ((self.best, best_of, "best"), (self.worst, worst_of, "worst")):
        q = w(ps, lambda x: c.get(x, P, rec_ + "_personal_value"))
        q = c.put(c.put(c.whole(q, P), P, "coordinates", c.get(q, P, rec_ + "_personal_coordinates")),
                  P, "value", c.get(q, P, rec_ + "_personal_value"))
        sw = c.put(sw, S, f, ite(some_, opt(q), NONE))
    return self.with_state(o, sw)


def opt(x):
    return agg("core::option::Option", 1, (x,))


Genetic.fresh, Swarming.fresh = fresh_genetic, fresh_swarm
Genetic.used, Swarming.used = used_genetic, used_swarm


def histories(alg, wanted=None):
    if not hasattr(alg, "_hist"):
        alg._hist = {}
    out = []
    for name, start, ops in HISTORIES:
        if wanted is not None and name not in wanted:
            continue
        if name not in alg._hist:
            alg._hist[name] = History(alg, name, start, ops)
        out.append(alg._hist[name])
    return out


def trace_parts(ref, names):
    """the proofs about traces, looking only at the named events"""
    def f(e):
        return lit(e) if e.args[0] in names else NIL
    return [(n, project(ref[n][0], f, keep=True), project(ref[n][1], f, keep=True))
            for n in ("entry trace", "step trace", "exit trace") if n in ref]


def generic(alg, which):
    """a call on any optimizer value and its reference"""
    if not hasattr(alg, "_ref"):
        alg._ref, alg._runs = {}, {}
    if which not in alg._ref:
        o = alg.c.sym("optimizer")
        r = alg._runs[which] = alg.run(o, which)
        alg._ref[which] = o, alg.reference(r, o, which)
    return alg._ref[which]


def proofs(alg, which, pieces, names):
    """the parts of the comparison of a call on any optimizer value with its reference that a property rests on"""
    o, ref = generic(alg, which)
    if not ref:
        return [("%s: no single guarded loop" % which, TRUE, FALSE, TRUE)]
    pre = alg.domain(o, which)
    out = []
    for n, a, b in trace_parts(ref, names):
        out.append(("%s: %s" % (which, n), a, b, pre))
    for n, (a, b) in ref.items():
        base = n.split(".")[0]
        if base in ("entry trace", "step trace", "exit trace"):
            continue
        if base in ("guard", "final", "answer") or base.split(" ")[-1] in pieces:
            out.append(("%s: %s" % (which, n), a, b, pre))
    return out


Genetic.domain = lambda self, o, which: TRUE


def swarm_domain(self, o, which):
    if which != "find_min":
        return TRUE
    xs = res("CoordinatesInitializer::get_coordinates", self.role(o, "coordinates_initializer"))
    vs = res("VelocityInitializer::get_velocity", self.role(o, "velocity_initializer"))
    return ieq(length(xs), length(vs))


Swarming.domain = swarm_domain


def observe(c, alg, label, monitor, pieces, names, wanted=None, **kw):
    """one obligation per history: the monitor accepts every run"""
    for h in histories(alg, wanted):
        with c.part("%s: %s" % (label, h.name)):
            w = c.where(h.calls[-1][2])
            c.ob("%s: %s" % (label, h.name), w, h.code, pre=h.ok, judge=h.judge(monitor),
                 proofs=[p for w_ in sorted(set(h.ops)) for p in proofs(alg, w_, pieces, names)], over=alg.over(),
                 modes=kw.get("modes", PMODES), limit=kw.get("limit", 30), rounds=kw.get("rounds", 80),
                 steered=False)
