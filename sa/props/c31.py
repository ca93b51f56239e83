from props.lib import *


def check(c):
    with c.part("goal predicate"):
        e, d = c.sym("expected"), c.sym("delta")
        f = c.run(c.fn(None, "tools::statistics::get_predicate_success_goal"), e, d)
        c.nopanic("goal predicate is made", f, conj(is_finite(e), fle(ZERO, d)))
        s = c.sym("solution")
        r = c.apply(f.ret, s, pre=f.facts, name="predicate of get_predicate_success_goal")
        g = field(s, 1)
        dom = conj(is_finite(e), is_finite(d))
        spec = flt(fabs(sub(g, e)), d)
        c.returns("goal within delta of the expected one", r, r.ret, spec, dom)
    with c.part("point predicate"):
        e, d = c.sym("expected_point"), c.sym("deltas")
        f = c.run(c.fn(None, "tools::statistics::get_predicate_success_vec_solution"), e, d)
        ne, nd = length(e), length(d)
        fin = conj(forall(ne, lambda k: is_finite(idx(e, k))), forall(nd, lambda k: is_finite(idx(d, k))))
        c.refuses("tolerances of another dimension", f, bnot(ieq(ne, nd)), fin)
        s = c.sym("vec_solution")
        r = c.apply(f.ret, s, pre=f.facts, name="predicate of get_predicate_success_vec_solution")
        x = field(s, 0)
        dom = conj(fin, ieq(ne, nd), ieq(length(x), ne))
        spec = forall(length(x), lambda k: fle(fabs(sub(idx(x, k), idx(e, k))), idx(d, k)))
        c.returns("every coordinate within its own delta", r, r.ret, spec, dom)
