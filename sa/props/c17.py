from props.lib import *

V = "particleswarm::velocitycalc::"
T = "particleswarm::VelocityCalculator"


def check(c):
    def view(sfx):
        swarm, particle = c.sym("swarm" + sfx), c.sym("particle" + sfx)
        return [swarm, particle]

    class W(object):
        def __init__(self, swarm, particle):
            self.v = c.get(particle, P, "velocity")
            self.x = c.get(particle, P, "coordinates")
            self.b = c.get(particle, P, "best_personal_coordinates")
            self.w = c.get(particle, P, "worst_personal_coordinates")
            self.best = c.get(swarm, S, "best_particle")
            self.worst = c.get(swarm, S, "worst_particle")
            self.gb, self.gw = coords(vfield(self.best, 1, 0)), coords(vfield(self.worst, 1, 0))
            self.it = c.get(swarm, S, "iteration")
            self.n = length(self.x)
            self.ps = c.get(swarm, S, "particles")
            val = lambda p: c.get(p, P, "value")
            self.cb, self.cw = coords(best_of(self.ps, val)), coords(worst_of(self.ps, val))
            self.ties = no_ties(self.ps, val)
            self.dom = conj(is_variant(self.best, 1), *[ieq(length(y), self.n) for y in (self.v, self.b, self.gb)])

        def term(self, co, tag, y, k):
            return mul(mul(co, rdraw(True, "f", ZERO, ONE, tag, k)), sub(idx(y, k), idx(self.x, k)))

    def coords(p):
        return c.get(p, P, "coordinates")

    def dom1(*a):
        return W(*a).dom

    p, g, a = c.sym("phi_personal"), c.sym("phi_global"), c.sym("alpha")
    with c.part("classic"):
        A = V + "ClassicVelocityCalculator"
        new = c.new(A, p, g)
        c.nopanic("classic rule is constructed", new)

        def body(f, args, name, pre):
            w = W(*args)
            c.returns(name, f, f.ret, vec(w.n, lambda k: add(idx(w.v, k), add(
                w.term(p, "p", w.b, k), w.term(g, "g", w.gb, k)))), conj(pre, w.dom))
        c.calls("classic velocity rule", c.fn(A, "calc_new_velocity", T), new.ret, view, body, dom1)
    with c.part("canonical"):
        A = V + "CanonicalVelocityCalculator"
        new = c.new(A, p, g, a)
        phi = add(p, g)
        good = conj(flt(num(4), phi), flt(ZERO, a), flt(a, ONE))
        xi = div(mul(num(2), a), sub(phi, num(2)))

        def body(f, args, name, pre):
            w = W(*args)
            c.returns(name, f, f.ret, vec(w.n, lambda k: mul(xi, add(idx(w.v, k), add(
                w.term(p, "p", w.b, k), w.term(g, "g", w.gb, k))))), conj(pre, w.dom))
        c.calls("canonical velocity rule", c.fn(A, "calc_new_velocity", T), new.ret, view, body, dom1,
                pre=conj(new.facts, good))
    with c.part("inertia"):
        A = V + "InertiaVelocityCalculator"
        i = c.sym("inertia")
        new = c.new(A, p, g, i)
        inert = [i]
        c.nopanic("inertia rule is constructed", new)

        def body(f, args, name, pre):
            w = W(*args)
            cur = inert[-1]
            q = res("Inertia::get", cur, w.it)
            d = conj(pre, w.dom)
            c.returns(name, f, f.ret, vec(w.n, lambda k: add(mul(q, idx(w.v, k)), add(
                w.term(p, "p", w.b, k), w.term(g, "g", w.gb, k)))), d)
            c.ob(name + ": inertia is asked once with the swarm's iteration number", f, f.trace,
                 events(ev("Inertia::get", cur, w.it)), pre=d)
            inert.append(evout("Inertia::get", 0, cur, w.it))
        f = c.fn(A, "calc_new_velocity", T)
        c.calls("inertia velocity rule", f, new.ret, view, body, dom1)
    with c.part("negative reinforcement"):
        A = V + "NegativeReinforcement"
        co = [c.sym(t) for t in ("phi_best_personal", "phi_best_current", "phi_best_global",
                                 "phi_worst_personal", "phi_worst_current", "phi_worst_global", "xi")]
        new = c.new(A, *co)
        c.nopanic("reinforcement rule is constructed", new)

        def dom2(*args):
            w = W(*args)
            return conj(w.dom, is_variant(w.worst, 1), ilt(ZERO, length(w.ps)), w.ties,
                        *[ieq(length(y), w.n) for y in (w.w, w.gw, w.cb, w.cw)])

        def body(f, args, name, pre):
            w = W(*args)

            def rule(k):
                plus = add(w.term(co[0], "bp", w.b, k), add(w.term(co[1], "bc", w.cb, k),
                                                            w.term(co[2], "bg", w.gb, k)))
                minus = add(w.term(co[3], "wp", w.w, k), add(w.term(co[4], "wc", w.cw, k),
                                                             w.term(co[5], "wg", w.gw, k)))
                return mul(co[6], sub(add(idx(w.v, k), plus), minus))
            c.returns(name, f, f.ret, vec(w.n, rule), conj(pre, dom2(*args)))
        c.calls("velocity rule with negative reinforcement", c.fn(A, "calc_new_velocity", T), new.ret, view, body,
                dom2)
