from props.lib import *
from terms import intdiv

T = "genetic::Cross"


def check(c):
    few = lambda p: ilt(length(p), num(2))
    with c.part("mean"):
        A = "genetic::cross::CrossMean"
        new = c.new(A)

        def body(r, a, name, pre):
            p = a[0]
            c.refuses(name, r, few(p), pre)
            c.ob(name, r, r.ret, lit(div(sigma(length(p), lambda k: idx(p, k)), length(p))),
                 pre=conj(pre, bnot(few(p))))
        c.calls("arithmetic mean of all parents", c.fn(A, "cross", T), new.ret, lambda s: [c.sym("parents" + s)],
                body, lambda p: bnot(few(p)))
    with c.part("mean of integers"):
        # the same source with G an integer type: the division truncates, so the sum has to come first
        A = "genetic::cross::CrossMean"
        new = c.new(A)

        def body(r, a, name, pre):
            p = a[0]
            c.ob(name, r, r.ret, lit(intdiv("idiv", sigma(length(p), lambda k: idx(p, k)), length(p))),
                 pre=conj(pre, bnot(few(p))))
        c.calls("arithmetic mean of integer parents", c.fn(A, "cross", T), new.ret,
                lambda s: [c.sym("parents" + s)], body, lambda p: bnot(few(p)), types="i64")
    with c.part("geometric mean"):
        A = "genetic::cross::FloatCrossGeometricMean"
        new = c.new(A)

        def body(r, a, name, pre):
            p = a[0]
            n = length(p)
            c.refuses(name, r, few(p), pre)
            fin = forall(n, lambda k: is_finite(idx(p, k)))
            c.ob(name, r, r.ret, lit(powf(product(n, lambda k: idx(p, k)), div(ONE, n))),
                 pre=conj(pre, bnot(few(p)), fin))
        c.calls("geometric mean of all parents", c.fn(A, "cross", T), new.ret, lambda s: [c.sym("parents" + s)],
                body, lambda p: bnot(few(p)))
