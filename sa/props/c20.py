from props.lib import *

D = "tools::statistics::Statistics"
L = "tools::statistics::StatisticsLogger"
T = "tools::logging::Logger"


def check(c):
    def seen(v):
        return (c.run(c.fn(D, "get_results"), v).ret, c.run(c.fn(D, "get_convergence"), v).ret)

    def both(name, r, v, want, pre=TRUE):
        c.nopanic(name, r, pre)
        res_, conv = seen(v)
        c.ob(name + ": results", r, res_, want[0], pre=pre)
        c.ob(name + ": convergence", r, conv, want[1], pre=pre)

    def best(s):
        return call("AlgorithmState::get_best_solution", s)
    with c.part("accessors"):
        d = c.sym("statistics")
        new = c.new(D)
        both("new statistics are empty", new, new.ret, (NIL, NIL))
        r = c.run(c.fn(D, "get_run_count"), d)
        c.returns("the number of runs is the number of results", r, r.ret, length(seen(d)[0]))
    with c.part("unite"):
        a, b = c.sym("statistics"), c.sym("other")
        r = c.run(c.fn(D, "unite"), a, b)
        x, y = seen(a), seen(b)
        both("uniting appends the other's runs", r, r.arg(1), (cat(x[0], y[0]), cat(x[1], y[1])))
    with c.part("histories"):
        # every history of a logger is a sequence of these calls; the statistics it is attached to may hold any
        # number of completed runs already
        hist = {
            "a run": "s r i f", "a run of several iterations": "s r i i i f", "a run without iterations": "s r f",
            "a continued run": "s r i f r i i f", "a run continued twice": "s r i f r i f r f",
            "runs after each other": "s r i i f s r i f", "a run after a continued one": "s r i f r i f s r f s r i f",
            "a continued run after a finished one": "s r i f s r f r i f",
        }
        for first in ("new", "used"):
            for name, ops in hist.items():
                history(c, best, both, seen, first, name + (" (statistics with earlier runs)" if first == "used" else ""),
                        ops)
        # one attached logger after another
        history(c, best, both, seen, "new", "a second logger on the same statistics", "s r i f L s r i f")
        history(c, best, both, seen, "new", "a run continued under another logger", "s r i f L r i f s r f")
        # iterations continued before any run was started get a record of their own
        history(c, best, both, seen, "new", "a continuation before any run", "r i i f")
        history(c, best, both, seen, "new", "a run after a continuation without a run", "r i f r f s r i f")
        # united statistics stay usable
        history(c, best, both, seen, "new", "a run after uniting", "s r i f U s r i f r f")


NAMES = {"s": "start", "r": "resume", "i": "next_iteration", "f": "finish"}


def history(c, best, both, seen, first, name, ops):
    if first == "new":
        v = c.new(D).ret
        results, conv, pre = NIL, NIL, TRUE
    else:
        v = c.sym("statistics")
        results, conv = seen(v)
        pre = ieq(length(results), length(conv))

    def logger(v):
        r = c.run(c.fn(L, "new"), mref("stats"), heap={"stats": v})
        return r.ret, r.mem["stats"]
    log, v = logger(v)
    earlier, runs, cur, fin = (results, conv), [], None, None
    for i, o in enumerate(ops.split()):
        label = "%s, step %d" % (name, i + 1)
        if o == "L":
            log, v = logger(v)
            continue
        if o == "U":
            other = c.sym("other")
            r = c.run(c.fn(D, "unite"), v, other)
            v = r.arg(1)
            x = seen(other)
            pre = conj(pre, ieq(length(x[0]), length(x[1])))
            runs.append(x)
            cur = fin = None
            log, v = logger(v)
        else:
            st = c.sym("state_%d" % (i + 1))
            r = c.run(c.fn(L, NAMES[o], T), log, st, heap={"stats": v})
            log, v = r.arg(1), r.mem["stats"]
            if o == "s":
                cur, fin = [], None
                runs.append((cur, [None]))
            elif o == "r" and first == "new" and not runs:
                cur = []
                runs.append((cur, [None]))
            elif o == "i":
                cur.append(best(st))
            elif o == "f":
                runs[-1][1][0] = best(st)
        res_, conv_ = earlier
        for x, y in runs:
            if isinstance(x, list):
                conv_ = cat(conv_, lit(cat(*[lit(e) for e in x]) if x else NIL))
                res_ = cat(res_, lit(y[0])) if y[0] is not None else res_
            else:
                res_, conv_ = cat(res_, x), cat(conv_, y)
        both("%s (%s)" % (label, NAMES.get(o, "unite")), r, v, (res_, conv_), pre)
        c.ob("%s: nothing but the statistics is touched" % label, r, r.trace, NIL, pre=pre)
