from props.lib import *

V = "particleswarm::postvelocitycalc::"
T = "particleswarm::PostVelocityCalc"


def check(c):
    with c.part("per dimension"):
        A = V + "MaxVelocityDimensions"
        lim = c.sym("max_velocity")
        new = c.new(A, lim)
        dom = forall(length(lim), lambda k: fle(ZERO, idx(lim, k)))
        c.nopanic("per-dimension limiter is constructed", new, dom)

        def body(r, a, name, pre):
            v = a[0]
            ok = ieq(length(v), length(lim))
            real = forall(length(v), lambda k: bnot(is_nan(idx(v, k))))

            def one(k):
                x, m = idx(v, k), idx(lim, k)
                return ite(fle(fabs(x), m), x, mul(fun("signum", x), fabs(m)))
            c.refuses(name, r, bnot(ok), conj(pre, dom))
            c.ob(name, r, r.ret, vec(length(v), one), pre=conj(pre, dom, ok, real))
        c.calls("per-dimension limiter", c.fn(A, "correct_velocity", T), new.ret,
                lambda s: [c.sym("velocity" + s)], body,
                lambda v: conj(dom, ieq(length(v), length(lim))))
    with c.part("absolute"):
        A = V + "MaxVelocityAbs"
        m = c.sym("max_velocity")
        new = c.new(A, m)
        dom = flt(ZERO, m)
        c.nopanic("absolute limiter is constructed", new, dom)

        def body(r, a, name, pre):
            v = a[0]
            norm = sqrt(sigma(length(v), lambda k: mul(idx(v, k), idx(v, k))))
            spec = ite(flt(m, norm), vec(length(v), lambda k: div(mul(idx(v, k), m), norm)), v)
            real = forall(length(v), lambda k: is_finite(idx(v, k)))
            c.returns(name, r, r.ret, spec, conj(pre, dom, real))
        c.calls("absolute limiter", c.fn(A, "correct_velocity", T), new.ret,
                lambda s: [c.sym("velocity" + s)], body, dom)
