from props.lib import *


def worse(x, y):
    """goal value x strictly worse than y; NaN is the worst"""
    if y != y:
        return False
    return x != x or x > y


def check(c, order_only=False):
    FIT, ALIVE = c.ix(I, "fitness"), c.ix(I, "alive")

    def judge(S, v):
        before, after = S.elems(S.fieldof(v, 0)), S.elems(S.fieldof(v, 1))
        surplus = S.asint(S.fieldof(v, 2))
        if len(before) != len(after):
            return None if order_only else "the number of individuals changed from %d to %d" % (len(before), len(after))
        stay, killed = [], []
        for i, (b, a) in enumerate(zip(before, after)):
            for f in range(3):
                if not order_only and f != ALIVE and not S.eqv(S.fieldof(b, f), S.fieldof(a, f)):
                    return "individual %d: something other than its life mark changed" % i
            x, y = S.asbool(S.fieldof(b, ALIVE)), S.asbool(S.fieldof(a, ALIVE))
            if y and not x and not order_only:
                return "individual %d was dead and has been revived" % i
            if x:
                (stay if y else killed).append(S.asnum(S.fieldof(b, FIT)))
        for s in stay:
            for k in killed:
                if worse(s, k):
                    return "an individual of value %s stays alive while one of %s is killed" % (s, k)
        if order_only:
            return None
        want = max(0, min(surplus, len(stay) + len(killed)))
        if len(killed) != want:
            return "%d individuals killed instead of %d (%d were alive)" % (
                len(killed), want, len(stay) + len(killed))
        return None

    def order(s):
        def cmp_(x, y):
            gx, gy = c.get(idx(s, x), I, "fitness"), c.get(idx(s, y), I, "fitness")
            num_ = ite(eqn(gy, gx, "f"), EQUAL, ite(lt(gy, gx, "f"), LESS, GREATER))
            return ite(is_nan(gy), ite(is_nan(gx), EQUAL, GREATER), ite(is_nan(gx), LESS, num_))
        p, q = fresh_phi("x"), fresh_phi("y")
        tm.UINTS.update((p, q))
        living = filtered(length(s), lambda k: alive(c, idx(s, k)), lambda k: k)
        return living, tm.sortby(living, p, q, cmp_(p, q))

    def spec(s, surplus):
        living, worst = order(s)
        n = length(living)
        m = tm.imin(n, surplus)
        return folded(m, s, lambda k, acc: tm.upd(acc, idx(worst, k),
                                                  c.put(idx(acc, idx(worst, k)), I, "alive", FALSE)))

    def tup(a, b, x):
        return agg("tuple", 0, (a, b, x))

    with c.part("limit"):
        A = "genetic::selection::LimitPopulation"
        lim = c.sym("max_count", "usize")
        new = c.new(A, lim)
        c.nopanic("population limit is constructed", new)

        def body(r, a, name, pre):
            pop = a[0]
            s = c.get(pop, POP, "individuals")
            living = count(length(s), lambda k: alive(c, idx(s, k)))
            surplus = ite(ilt(lim, living), sub(living, lim), ZERO)
            after = c.get(r.arg(2), POP, "individuals")
            c.nopanic(name, r, pre)
            c.ob(name + ": exactly the surplus worst are killed", r, tup(s, after, surplus),
                 tup(s, ite(ilt(lim, living), spec(s, surplus), s), surplus), pre=pre, judge=judge)
            if order_only:
                return
            c.ob(name + ": only the individuals are touched", r, c.put(r.arg(2), POP, "individuals", UNIT),
                 c.put(pop, POP, "individuals", UNIT), pre=pre)
        c.calls("population limit", c.fn(A, "kill", "genetic::Selection"), new.ret,
                lambda s: [c.sym("population" + s)], body)
    if not order_only:
        with c.part("later limit"):
            # a limit given later replaces the earlier one
            lim2 = c.sym("later_limit", "usize")
            f = c.run(c.fn(A, "set_limit"), new.ret, lim2)
            c.ob("a later limit replaces the earlier one", f, f.arg(1), c.new(A, lim2).ret)
    with c.part("kill_worst"):
        f = c.fn(None, "genetic::selection::kill_worst")
        pop, n = c.sym("population"), c.sym("count", "usize")
        r = c.run(f, pop, n)
        s = c.get(pop, POP, "individuals")
        c.nopanic("kill_worst", r)
        c.ob("kill_worst kills exactly the given number of worst", r,
             tup(s, c.get(r.arg(1), POP, "individuals"), n), tup(s, spec(s, n), n), judge=judge)
