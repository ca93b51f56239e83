from props.lib import *

V = "particleswarm::velocitycalc::"


def check(c):
    with c.part("constant inertia"):
        w = c.sym("w")
        new = c.new(V + "ConstInertia", w)
        c.nopanic("constant inertia is constructed", new)
        c.calls("constant inertia is the configured value", c.fn(V + "ConstInertia", "get", V + "Inertia"), new.ret,
                lambda s: [c.sym("iteration" + s, "usize")],
                lambda r, a, name, pre: c.returns(name, r, r.ret, w, pre))
    with c.part("linear inertia"):
        lo, hi, tmax = c.sym("w_min"), c.sym("w_max"), c.sym("t_max", "usize")
        new = c.new(V + "LinearInertia", lo, hi, tmax)
        c.nopanic("linear inertia is constructed", new, conj(ilt(ZERO, tmax)))

        def dom(t):
            return conj(ilt(ZERO, tmax), ile(t, tmax))
        c.calls("linear inertia goes from w_max at 0 to w_min at t_max linearly",
                c.fn(V + "LinearInertia", "get", V + "Inertia"), new.ret,
                lambda s: [c.sym("iteration" + s, "usize")],
                lambda r, a, name, pre: c.returns(name, r, r.ret, sub(hi, div(mul(sub(hi, lo), a[0]), tmax)),
                                                  conj(pre, dom(*a))), dom)
    with c.part("canonical"):
        A = V + "CanonicalVelocityCalculator"
        p, g, a = c.sym("phi_personal"), c.sym("phi_global"), c.sym("alpha")
        new = c.new(A, p, g, a)
        phi = add(p, g)
        bad = bnot(conj(flt(num(4), phi), flt(ZERO, a), flt(a, ONE)))
        c.refuses("constriction parameters", new, bad)
        # the factor itself, as it multiplies the velocity
        swarm, particle = c.sym("swarm"), c.sym("particle")
        r = c.run(c.fn(A, "calc_new_velocity", "particleswarm::VelocityCalculator"), new.ret, swarm, particle,
                  pre=new.facts)
        v = c.get(particle, P, "velocity")
        x = c.get(particle, P, "coordinates")
        b = c.get(particle, P, "best_personal_coordinates")
        best = c.get(swarm, S, "best_particle")
        gb = c.get(vfield(best, 1, 0), P, "coordinates")
        xi = div(mul(num(2), a), sub(phi, num(2)))

        def comp_(k):
            r1 = rdraw(True, "f", ZERO, ONE, "p", k)
            r2 = rdraw(True, "f", ZERO, ONE, "g", k)
            d = add(mul(mul(p, r1), sub(idx(b, k), idx(x, k))), mul(mul(g, r2), sub(idx(gb, k), idx(x, k))))
            return mul(xi, add(idx(v, k), d))
        n = length(x)
        dom = conj(bnot(bad), is_variant(best, 1), *[ieq(length(y), n) for y in (v, b, gb)])
        c.returns("the velocity is scaled by 2 alpha / (phi - 2)", r, r.ret, vec(n, comp_), dom)
