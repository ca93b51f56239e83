from props.lib import *

D = "tools::statistics::CallCountData"
G = "tools::statistics::GoalCalcStatistics"


def bump(s, n):
    """counters after n further calls of the current run (of the first run if none was opened)"""
    last_ = sub(length(s), ONE)
    return ite(ile(length(s), ZERO), lit(n), tm.upd(s, last_, add(idx(s, last_), n)))


def check(c):
    counters = lambda d: c.get(d, D, "0")
    # observable through get_call_count
    with c.part("counters"):
        d = c.sym("counts")
        show = c.fn(D, "get_call_count")

        def seen(v):
            return c.run(show, v).ret
        new = c.new(D)
        c.ob("new counters are empty", new, seen(new.ret), NIL)
        s = seen(d)
        c.ob("the counters are shown as they are", c.run(show, d), s, counters(d))
        r = c.run(c.fn(D, "next_run"), d)
        c.returns("a new run opens a zero counter behind the earlier ones", r, seen(r.arg(1)), cat(s, lit(ZERO)))
        r = c.run(c.fn(D, "increment"), d)
        c.returns("increment adds one to the current counter", r, seen(r.arg(1)), bump(s, ONE))
        n = c.sym("n", "usize")
        r = c.run(c.fn(D, "add"), d, n)
        c.returns("adding n adds n to the current counter", r, seen(r.arg(1)), bump(s, n))
        e = c.sym("other")
        r = c.run(c.fn(D, "unite"), d, e)
        c.returns("uniting appends the other's counters", r, seen(r.arg(1)), cat(s, seen(e)))
        r = c.run(c.fn(D, "get_average_call_count"), d)
        m = length(s)
        c.returns("average is calls over runs", r, r.ret,
                  ite(ile(m, ZERO), agg("core::option::Option", 0, ()),
                      agg("core::option::Option", 1, (div(sigma(m, lambda k: idx(s, k)), m),))))
        # a mixed history from the constructor on
        v, want = new.ret, NIL
        for i, (op, args) in enumerate([("increment", ()), ("next_run", ()), ("add", (n,)), ("increment", ()),
                                        ("next_run", ()), ("next_run", ()), ("increment", ())]):
            r = c.run(c.fn(D, op), v, *args)
            v = r.arg(1)
            want = cat(want, lit(ZERO)) if op == "next_run" else bump(want, args[0] if args else ONE)
            c.returns("history of counters, step %d (%s)" % (i + 1, op), r, seen(v), want)
    with c.part("goal"):
        d, x = c.sym("counts"), c.sym("point")
        goal = c.sym("goal")
        heap = {"counts": d, "goal": goal}
        new = c.run(c.fn(G, "new"), mref("goal"), mref("counts"), heap=heap)
        c.nopanic("counting goal is constructed", new)
        s = seen(d)
        c.ob("wrapping a goal counts nothing", new, seen(new.mem["counts"]), s)
        obj, heap = new.ret, {k: new.mem[k] for k in heap}
        for i in range(2):
            x = c.sym("point_%d" % (i + 1))
            r = c.run(c.fn(G, "get", "Goal"), obj, x, heap=heap)
            name = "counting goal, call %d" % (i + 1)
            c.returns(name + ": value passed through unchanged", r, r.ret, res("Goal::get", goal, x))
            c.ob(name + ": the wrapped goal is asked exactly once, at the same point", r, r.trace,
                 events(ev("Goal::get", goal, x)))
            s = bump(s, ONE)
            c.ob(name + ": counted exactly once", r, seen(r.mem["counts"]), s)
            c.ob(name + ": the wrapped goal is not replaced", r, r.mem["goal"], goal)
            obj, heap = r.arg(1), {k: r.mem[k] for k in heap}
