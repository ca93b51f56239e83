from props.lib import *

AG, ST, ALL = "Agent", "AlgorithmState", "AgentsState"
NONE = agg("core::option::Option", 0, ())


def check(c):
    def get(adt, name, trait, v, want, label, pre=TRUE):
        f = c.fn(adt, name, trait)
        r = c.run(f, v)
        c.returns(label, r, r.ret, want, pre)
        c.ob(label + ": without an effect", r, r.trace, NIL, pre=pre)
        t = f.local_ty(1)
        c.fact(label + ": the object is only read", c.where(r), t["k"] == "ref" and not t["m"],
               "takes its object as %s" % t.get("t", t))
        return r
    with c.part("individual"):
        x = c.sym("individual")
        point, value, mark_ = (c.get(x, I, f) for f in ("chromosomes", "fitness", "alive"))
        get(I, "get_parameter", AG, x, point, "an individual's point")
        get(I, "get_chromosomes", None, x, point, "an individual's chromosomes")
        get(I, "get_goal", AG, x, value, "an individual's goal value")
        get(I, "get_fitness", None, x, value, "an individual's fitness")
        get(I, "is_alive", None, x, tm.boolatom(mark_), "an individual's life mark")
        w = c.put(c.whole(x, I), I, "alive", alive(c, x))
        get(I, "clone", "core::clone::Clone", w, w, "a cloned individual equals its original")
    with c.part("particle"):
        p = c.sym("particle")
        get(P, "get_parameter", AG, p, c.get(p, P, "coordinates"), "a particle's point")
        get(P, "get_goal", AG, p, c.get(p, P, "value"), "a particle's goal value")
        get(P, "clone", "core::clone::Clone", c.whole(p, P), c.whole(p, P), "a cloned particle equals its original")

    def record(x, adt, point, value):
        return ite(is_variant(x, 1), agg("core::option::Option", 1, (
            tup(c.get(vfield(x, 1, 0), adt, point), c.get(vfield(x, 1, 0), adt, value)),)), NONE)
    with c.part("population"):
        p = c.sym("population")
        s = c.get(p, POP, "individuals")
        n = length(s)
        get(POP, "len", None, p, n, "size of the population")
        get(POP, "len_alive", None, p, count(n, lambda k: alive(c, idx(s, k))), "number of the living")
        get(POP, "get_agents", ALL, p, s, "agents of the population, each once, in order")
        get(POP, "get_iteration", None, p, c.get(p, POP, "iteration"), "generation number")
        get(POP, "get_iteration", ST, p, c.get(p, POP, "iteration"), "generation number as iteration of the state")
        best, worst = c.get(p, POP, "best_individual"), c.get(p, POP, "worst_individual")
        get(POP, "get_best", None, p, best, "best individual")
        get(POP, "get_worst", None, p, worst, "worst individual")
        get(POP, "get_best_solution", ST, p, record(best, I, "chromosomes", "fitness"), "best solution of a population")
        r = c.run(c.fn(POP, "iter"), p)
        c.returns("iteration over all individuals, each once, in order", r, c.items(r, r.ret), s)
        r = c.run(c.fn(POP, "iter_mut"), p)
        fi = c.ix(POP, "individuals")
        c.returns("mutable iteration over all individuals, each once, in order", r, c.items(r, r.ret),
                  vec(n, lambda k: mref("arg1", (("f", fi), ("i", k)))))
        c.ob("handing out individuals changes nothing", r, r.arg(1), p)
        i = c.sym("index", "usize")
        ok = ilt(i, n)
        r = c.run(c.fn(POP, "index", "core::ops::index::Index"), p, i)
        c.refuses("indexing", r, bnot(ok))
        c.ob("index i gives the i-th individual", r, r.ret, idx(s, i), pre=ok)
        r = c.run(c.fn(POP, "index_mut", "core::ops::index::IndexMut"), p, i)
        c.refuses("mutable indexing", r, bnot(ok))
        c.ob("mutable index i gives the i-th individual", r, r.ret, mref("arg1", (("f", fi), ("i", i))), pre=ok)
        c.ob("indexing changes nothing", r, r.arg(1), p, pre=ok)
    with c.part("swarm"):
        w = c.sym("swarm")
        s = c.get(w, S, "particles")
        get(S, "len", None, w, length(s), "size of the swarm")
        get(S, "get_agents", ALL, w, s, "agents of the swarm, each once, in order")
        get(S, "get_iteration", ST, w, c.get(w, S, "iteration"), "iteration number of the swarm")
        get(S, "get_best_solution", ST, w, record(c.get(w, S, "best_particle"), P, "coordinates", "value"),
            "best solution of a swarm")
        r = c.run(c.fn(S, "new"))
        c.returns("a new swarm is empty", r, r.ret, r.ret)
        for f, v in (("particles", NIL), ("best_particle", NONE), ("worst_particle", NONE), ("iteration", ZERO)):
            c.ob("a new swarm has nothing in it (%s)" % f, r, c.get(r.ret, S, f), v)
