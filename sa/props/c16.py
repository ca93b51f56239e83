from props.lib import *
from props.c15 import tobits, frombits


def check(c):
    with c.part("vector mutation"):
        A = "genetic::mutation::VecMutation"
        p, m = c.sym("probability"), c.sym("single_mutation")
        new = c.new(A, p, m)

        def body(r, a, name, pre):
            x = a[0]
            n = length(x)
            hit = lambda k: flt(rdraw(False, "f", ZERO, num(100), "chance", k), p)
            c.returns(name, r, r.ret, vec(n, lambda k: ite(hit(k), res("Mutation::mutation", m, idx(x, k)), idx(x, k))),
                      pre)
            c.ob(name + ": each chosen gene is mutated once, in order", r, r.trace,
                 flatten(n, lambda k: ite(hit(k), lit(ev("Mutation::mutation", m, idx(x, k))), NIL)), pre=pre)
        c.calls("gene-wise mutation", c.fn(A, "mutation", "genetic::Mutation"), new.ret,
                lambda s: [c.sym("chromosomes" + s)], body, pre=bnot(is_nan(p)))
    with c.part("vector crossing"):
        A = "genetic::cross::VecCrossAllGenes"
        x = c.sym("single_cross")
        new = c.new(A, x)

        def dom(p):
            return conj(ieq(length(p), num(2)), ile(length(idx(p, ZERO)), length(idx(p, ONE))))

        def body(r, a, name, pre):
            p = a[0]
            p0, p1 = idx(p, ZERO), idx(p, ONE)
            pair = lambda k: lit(idx(p0, k), idx(p1, k))
            good = dom(p)
            c.nopanic(name, r, conj(pre, good))
            c.ob(name + ": two parents are required", r, r.may_panic(), TRUE,
                 pre=conj(pre, bnot(ieq(length(p), num(2)))))
            c.ob(name, r, r.ret, lit(flatten(length(p0), lambda k: res("Cross::cross", x, pair(k)))),
                 pre=conj(pre, good))
            c.ob(name + ": each pair of genes is crossed once, in order", r, r.trace,
                 vec(length(p0), lambda k: ev("Cross::cross", x, pair(k))), pre=conj(pre, good))
        c.calls("gene-wise crossing", c.fn(A, "cross", "genetic::Cross"), new.ret, lambda s: [c.sym("parents" + s)],
                body, dom)
    with c.part("bitwise mutation"):
        A = "genetic::mutation::BitwiseMutation"
        n = c.sym("count", "usize")
        new = c.new(A, n)
        for fl, ty, w in (("f64", "u64", 64), ("f32", "u32", 32)):
            def body(r, a, name, pre):
                g = a[0]

                def flip(k, acc):
                    return tm.bitop("xor", ty, acc, tm.bitop("shl", ty, ONE, rdraw(False, "u", ZERO, num(w), "bit", k)))
                c.returns(name, r, r.ret, frombits(ty, folded(n, tobits(ty, g), flip)), pre, modes=BITMODES)
            c.calls("bitwise mutation of " + fl,
                    c.fn(A, "mutation", "genetic::Mutation", targs=lambda t: t[-1].get("n") == fl), new.ret,
                    lambda s: [c.sym("gene_%s%s" % (fl, s))], body)
