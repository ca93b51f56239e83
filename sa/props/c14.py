from props.lib import *


def proper(iv, typed=None):
    """every interval is a finite, non-empty one"""
    return forall(length(iv), lambda k: flt(field(idx(iv, k), 0), field(idx(iv, k), 1)))


def finite(iv):
    return forall(length(iv), lambda k: conj(is_finite(field(idx(iv, k), 0)), is_finite(field(idx(iv, k), 1))))


def check(c):
    iv = c.sym("intervals")
    n = c.sym("count", "usize")

    def point(tag, k=None):
        ks = () if k is None else (k,)
        return vec(length(iv), lambda i: rdraw(True, "f", field(idx(iv, i), 0), field(idx(iv, i), 1), tag, *(ks + (i,))))

    with c.part("genetic creator"):
        A = "genetic::creation::vec_float::RandomCreator"
        new = c.new(A, n, iv)
        bad = disj(ile(n, ZERO), ile(length(iv), ZERO), bnot(proper(iv)))
        c.refuses("genetic creator", new, bad)

        def body(r, a, name, pre):
            c.returns(name, r, r.ret, vec(n, lambda k: point("gene", k)), conj(pre, finite(iv)))
        c.calls("initial population", c.fn(A, "create", "genetic::Creator"), new.ret, lambda s: [], body,
                pre=conj(new.facts, bnot(bad)))
    for A, f, T, what in (("RandomCoordinatesInitializer", "get_coordinates", "CoordinatesInitializer", "positions"),
                          ("RandomVelocityInitializer", "get_velocity", "VelocityInitializer", "velocities")):
        with c.part(what):
            A = "particleswarm::initializing::" + A
            new = c.new(A, iv, n)
            c.nopanic("random %s are configured" % what, new)

            def body(r, a, name, pre):
                c.refuses(name, r, conj(ilt(ZERO, n), bnot(proper(iv))), conj(pre, finite(iv)))
                c.ob(name, r, r.ret, vec(n, lambda k: point("x", k)), pre=conj(pre, finite(iv), proper(iv)))
            c.calls("random initial " + what, c.fn(A, f, "particleswarm::" + T), new.ret, lambda s: [], body,
                    proper(iv))
    with c.part("zero velocities"):
        A = "particleswarm::initializing::ZeroVelocityInitializer"
        d = c.sym("dimension", "usize")
        new = c.new(A, d, n)

        def body(r, a, name, pre):
            c.returns(name, r, r.ret, vec(n, lambda k: vec(d, lambda i: ZERO)), pre)
        c.calls("zero initial velocities", c.fn(A, "get_velocity", "particleswarm::VelocityInitializer"), new.ret,
                lambda s: [], body)
    with c.part("random vectors"):
        A = "tools::RandomVectorCreator"
        new = c.new(A)

        def body(r, a, name, pre):
            c.refuses(name, r, bnot(proper(iv)), conj(pre, finite(iv)))
            c.ob(name, r, r.ret, point("v"), pre=conj(pre, finite(iv), proper(iv)))
        c.calls("random vector", c.fn(A, "create_vec"), new.ret, lambda s: [iv], body, proper(iv))
