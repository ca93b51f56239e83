from props.lib import *

M = "tools::stopchecker::"
T = "tools::stopchecker::StopChecker"
MAXF = num(Fraction(1.7976931348623157e308))


def best(s):
    return call("AlgorithmState::get_best_solution", s)


def goal(s):
    return field(vfield(best(s), 1, 0), 1)


def it(s):
    x = call("AlgorithmState::get_iteration", s)
    for t in tm.leaves(x):
        tm.UINTS.add(t)
    return x


def check(c):
    with c.part("iteration limit"):
        A = M + "MaxIterations"
        n = c.sym("max_iter", "usize")
        new = c.new(A, n)

        def body(r, a, name, pre):
            c.returns(name, r, tm.boolatom(r.ret), ile(n, it(a[0])), pre)
        c.calls("iteration limit", c.fn(A, "can_stop", T), new.ret, lambda s: [c.sym("state" + s)], body)
    with c.part("threshold"):
        A = M + "Threshold"
        x = c.sym("threshold")
        new = c.new(A, x)

        def body(r, a, name, pre):
            c.returns(name, r, tm.boolatom(r.ret), conj(is_variant(best(a[0]), 1), fle(goal(a[0]), x)), pre)
        c.calls("threshold", c.fn(A, "can_stop", T), new.ret, lambda s: [c.sym("state" + s)], body)
    for A, name, stops in ((M + "CompositeAny", "any of", True), (M + "CompositeAll", "all of", False)):
        with c.part(name):
            ch = c.sym("stop_checkers")
            new = c.new(A, ch)
            empty = ile(length(ch), ZERO)
            c.refuses(name + " no criteria", new, empty)

            def body(r, a, name, pre):
                n = length(ch)
                ans = lambda k: tm.boolatom(res("StopChecker::can_stop", idx(ch, k), a[0]))
                ask = lambda k: ev("StopChecker::can_stop", idx(ch, k), a[0])
                ends = (lambda k: ans(k)) if stops else (lambda k: bnot(ans(k)))
                some = exists(n, ends)
                k = fresh_k()
                m = tm.first(n, k, ends(k))
                asked = ite(some, cat(vec(m, ask), lit(ask(m))), vec(n, ask))
                pre = conj(pre, new.facts, bnot(empty))
                c.returns(name, r, tm.boolatom(r.ret), some if stops else bnot(some), pre)
                c.ob(name + ": asked in order until the outcome is settled", r, r.trace, asked, pre=pre)
            c.calls(name + " the criteria", c.fn(A, "can_stop", T), new.ret, lambda s: [c.sym("state" + s)], body)
    with c.part("stagnation"):
        stagnation(c)


def stagnation(c):
    A = M + "GoalNotChange"
    n, d = c.sym("max_iter", "usize"), c.sym("delta")
    new = c.new(A, n, d)
    c.nopanic("stagnation criterion is constructed", new)
    f = c.fn(A, "can_stop", T)
    dom = conj(is_finite(d), fle(ZERO, d), flt(d, num(10 ** 9)))
    # what an observer remembers: the recorded value and the iteration of the last change
    old, chg = MAXF, ZERO
    s, hist = new.ret, dom
    for i in range(4):
        st = c.sym("state_%d" % (i + 1))
        r = c.run(f, s, st, pre=hist)
        name = "stagnation criterion, call %d of a history" % (i + 1)
        g, t, some = goal(st), it(st), is_variant(best(st), 1)
        # a smaller iteration number than the remembered one is that of a new run
        back = conj(some, ilt(t, chg))
        old, chg = ite(back, MAXF, old), ite(back, ZERO, chg)
        moved = conj(some, flt(d, fabs(sub(g, old))))
        old, chg = ite(moved, g, old), ite(moved, t, chg)
        good = conj(hist, bor(bnot(some), conj(bnot(is_nan(g)), bor(bnot(is_finite(g)), flt(fabs(g), num(10 ** 9))))))
        c.returns(name, r, tm.boolatom(r.ret), conj(some, ilt(n, sub(t, chg))), good)
        if i < 2:
            # a goal that is not a number is never the recorded one
            st2 = c.sym("numeric_%d" % (i + 1))
            s2 = r.arg(1)
            r2 = c.run(f, s2, st2, pre=hist)
            g2, some2 = goal(st2), is_variant(best(st2), 1)
            nan = {g: tm.NAN}
            fresh = conj(some, ieq(tm.replace(chg, nan), ZERO), eqn(tm.replace(old, nan), MAXF, "f"))
            if i == 1:
                fresh = conj(fresh, ilt(t, it(c.sym("state_1"))))
            c.ob("a numeric best value after one that is not a number counts as a change (after %d calls)" % i, r2,
                 tm.replace(tm.boolatom(r2.ret), nan), FALSE,
                 pre=tm.replace(conj(hist, fresh, some2, is_finite(g2), flt(fabs(g2), num(10 ** 9))), nan),
                 modes=[dict(len=1, intmax=m, psome=95) for m in (4, 9, 40)], rounds=60)
        hist = conj(good, r.facts)
        s = r.arg(1)
        if s is None:
            return
