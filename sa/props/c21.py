from props.lib import *

T = "tools::statistics::"
NONE = agg("core::option::Option", 0, ())


def some(x):
    return agg("core::option::Option", 1, (x,))


def check(c):
    def one(f):
        return c.impl(T + "StatFunctionsGoal", f, lambda s: True)

    def sol(f):
        return c.impl(T + "StatFunctionsSolution", f, lambda s: True)

    def conv(f):
        return c.impl(T + "StatFunctionsConvergence", f, lambda s: True)
    s = c.sym("results")
    n = length(s)
    has = lambda k: is_variant(idx(s, k), 1)
    point = lambda k: field(vfield(idx(s, k), 1, 0), 0)
    goal = lambda k: field(vfield(idx(s, k), 1, 0), 1)
    cnt = count(n, has)
    none = ile(cnt, ZERO)
    few = ilt(cnt, num(2))

    def total(f):
        return sigma(n, lambda k: ite(has(k), f(k), ZERO))
    avg = div(total(goal), cnt)
    dev = sqrt(div(total(lambda k: mul(sub(goal(k), avg), sub(goal(k), avg))), sub(cnt, ONE)))
    fin = forall(n, lambda k: bor(bnot(has(k)), is_finite(goal(k))))
    with c.part("goals"):
        r = c.run(one("get_average_goal"), s)
        c.returns("average goal over the successful runs", r, r.ret, ite(none, NONE, some(avg)))
        r = c.run(one("get_standard_deviation_goal"), s)
        c.returns("(n-1)-normalised deviation of the goal over the successful runs", r, r.ret,
                  ite(few, NONE, some(dev)))
    with c.part("points"):
        # all successful points have one dimension
        p0, p1 = fresh_k(), fresh_k()
        f0 = tm.first(n, p0, has(p0))
        dim = length(point(f0))
        same_dim = forall(n, lambda k: bor(bnot(has(k)), ieq(length(point(k)), dim)))

        def mean(j):
            return div(total(lambda k: idx(point(k), j)), cnt)
        r = c.run(sol("get_average"), s)
        c.returns("average point over the successful runs", r, r.ret,
                  ite(none, NONE, some(tup(vec(dim, mean), avg))), same_dim)
        r = c.run(sol("get_standard_deviation"), s)

        def deviation(j):
            return sqrt(div(total(lambda k: mul(sub(idx(point(k), j), mean(j)), sub(idx(point(k), j), mean(j)))),
                            sub(cnt, ONE)))
        c.returns("(n-1)-normalised deviation of the points over the successful runs", r, r.ret,
                  ite(few, NONE, some(tup(vec(dim, deviation), dev))), same_dim)
    with c.part("rate"):
        p = c.sym("predicate")
        r = c.run(sol("get_success_rate"), s, p)
        ok = lambda k: tm.boolatom(call("apply", p, vfield(idx(s, k), 1, 0)))
        c.returns("success rate divides the successes by all runs", r, r.ret,
                  ite(ile(n, ZERO), NONE, some(div(count(n, lambda k: band(has(k), ok(k))), n))))
    with c.part("convergence"):
        v = c.sym("convergence")
        m = length(v)

        def shortest(p):
            return folded(m, length(idx(v, ZERO)), lambda k, acc: tm.imin(length(idx(v, k)), acc))
        least = ite(ile(m, ZERO), ZERO, shortest(v))
        r = c.run(conv("get_min_iterations"), v)
        c.returns("iterations every run reached", r, r.ret, least)
        r = c.run(conv("get_average_convergence"), v)

        def at(i):
            had = lambda k: is_variant(idx(idx(v, k), i), 1)
            q = count(m, had)
            t = sigma(m, lambda k: ite(had(k), field(vfield(idx(idx(v, k), i), 1, 0), 1), ZERO))
            return ite(ile(q, ZERO), NONE, some(div(t, q)))
        c.returns("mean per iteration over the runs that had a solution", r, r.ret, vec(least, at))
