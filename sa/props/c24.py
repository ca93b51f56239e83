from props.lib import *

T = "tools::logging::Logger"
BASE = "tools::logging::"
MOMENTS = ("start", "resume", "next_iteration", "finish")
NL = agg("line end", 0, ())


def word(t):
    return agg("word", 0, (mk("str", t),))


def shown(v, prec=UNIT):
    return lift("shown", lambda x, p: agg("shown", 0, (mk("str", "$disp"), x, p)), v, prec)


def tokens(text_):
    """what a reader sees in a text: words, values with their precision, line ends"""
    def go(v):
        if isinstance(v, N):
            return ite(node(v.atom, TRUE, FALSE), go(v.hi), go(v.lo))
        if v.op == "str":
            out = []
            for i, line in enumerate(v.args[0].split("\n")):
                if i:
                    out.append(NL)
                out.extend(word(w) for w in line.split())
            return cat(*[lit(x) for x in out]) if out else NIL
        if v.op == "disp":
            return lit(lift("shown", lambda x, p: agg("shown", 0, (mk("str", v.args[0]), x, p)), v.args[1], v.args[3]))
        if v.op == "cat":
            return cat(*[go(x) for x in v.args[0]])
        if v.op in ("comp", "flat"):
            k = fresh_k()
            return flat(v.args[0], k, go(tm.openb(v.args[1], v.args[2], {"k": k})))
        if v.op == "lit":
            return cat(*[go(x) for x in v.args[0]])
        return unk("text " + v.op, v)
    return go(text_)


def written(writer, trace):
    def f(e):
        if e.args[0] != "write":
            return NIL
        if e.args[1][0] is not writer:
            return lit(agg("written elsewhere", 0, (e.args[1][0],)))
        return tokens(e.args[1][1])
    return project(trace, f)


def relaxed(lines):
    """view of a token sequence: labels dropped (their absence and wording are no matter of the property); lines
    kept apart or not"""
    def g(S, v):
        out = []
        for x in S.elems(v):
            if x[1] == "word":
                continue
            if x[1] == "line end" and (not lines or not out or out[-1] == x):
                continue
            out.append(x)
        return ("seq", tuple(out))
    return g


def check(c):
    prec = c.sym("precision", "usize")
    best = lambda s: call("AlgorithmState::get_best_solution", s)
    it = lambda s: typed(call("AlgorithmState::get_iteration", s))

    def moment(adt, m):
        try:
            return c.fn(adt, m, T)
        except Missing:
            return c.fn(None, T + "::" + m)

    def made(adt, *args):
        w = c.sym("writer")
        r = c.run(c.fn(adt, "new"), mref("writer"), *args, heap={"writer": w})
        c.nopanic("constructor", r)
        c.ob("the constructor writes nothing", r, written(w, r.trace), NIL)
        return w, r.ret

    def step(adt, log, m, w, label, want, view=None):
        s = c.sym("state_" + label.replace(" ", "_"))
        r = c.run(moment(adt, m), log, s, heap={"writer": w})
        w2 = want(s) if callable(want) else want
        c.ob("%s: %s" % (adt.split("::")[-1], label), r, written(w, r.trace), w2, view=view)
        c.ob("%s: %s: no panic" % (adt.split("::")[-1], label), r, r.may_panic(), FALSE)
        return r

    def each_moment(adt, log, w, speaks):
        """every moment, and again after the others happened"""
        for rnd in ("", " later"):
            for m in MOMENTS:
                if m in speaks:
                    want, view, what = speaks[m]
                    r = step(adt, log, m, w, what + rnd, want, view)
                else:
                    r = step(adt, log, m, w, "nothing is written at %s%s" % (m, rnd), NIL)
                log = r.arg(1)
    with c.part("verbose logger"):
        A = BASE + "VerboseLogger"
        w, log = made(A, prec)

        def line(s):
            point, value = field(vfield(best(s), 1, 0), 0), field(vfield(best(s), 1, 0), 1)
            return ite(is_variant(best(s), 1), cat(
                lit(shown(it(s))), vec(length(point), lambda k: shown(idx(point, k), prec)), lit(shown(value, prec)),
                lit(NL)), NIL)
        each_moment(A, log, w, {"next_iteration": (line, relaxed(True), "one line per iteration with a best solution")})
    with c.part("result logger"):
        A = BASE + "ResultOnlyLogger"
        w, log = made(A, prec)

        def report(s):
            point, value = field(vfield(best(s), 1, 0), 0), field(vfield(best(s), 1, 0), 1)
            found = cat(lit(word("Solution:")), lit(NL),
                        flatten(length(point), lambda k: cat(lit(shown(idx(point, k), prec)), lit(NL))),
                        lit(NL), lit(NL), lit(word("Goal:")), lit(shown(value, prec)), lit(NL))
            none = cat(*[lit(x) for x in (word("Solution"), word("not"), word("found"), NL)])
            return cat(ite(is_variant(best(s), 1), found, none),
                       lit(word("Iterations")), lit(word("count:")), lit(shown(it(s))), lit(NL))
        each_moment(A, log, w, {"finish": (report, relaxed(False), "the result at the end")})
        s = c.sym("state")
        r = c.run(moment(A, "finish"), log, s, heap={"writer": w})
        said = written(w, r.trace)
        c.ob("a missing solution is reported in words before the iteration count", r, said, pre=bnot(is_variant(best(s), 1)),
             judge=lambda S, v: None if spoken(S, v) else "nothing is said about the missing solution")
    with c.part("time logger"):
        A = BASE + "TimeLogger"
        w, log0 = made(A)
        for hist in ("resume finish", "start resume finish", "start resume next_iteration next_iteration finish",
                     "start resume next_iteration finish resume next_iteration finish", "resume finish resume finish resume finish",
                     "start resume next_iteration finish start resume next_iteration finish"):
            log, latest = log0, None
            for i, m in enumerate(hist.split()):
                name = "after %s" % " ".join(hist.split()[:i]) if i else "first"
                if m == "finish":
                    # durations are measured from the latest resume to now
                    d = sub(res("Instant::now"), latest)
                    ms = add(mul(num(1000), typed(call("as_secs", d))), typed(call("subsec_millis", d)))
                    want = cat(*[lit(x) for x in (word("Time"), word("elapsed:"), shown(ms), word("ms"), NL)])
                    r = step(A, log, m, w, "elapsed time since the latest resume at finish, %s" % name, want, relaxed(False))
                else:
                    r = step(A, log, m, w, "nothing is written at %s, %s" % (m, name), NIL)
                log = r.arg(1)
                # name the instants of this call
                now = c.sym("instant_%d" % i)
                log = tm.replace(log, {t: now for t in decide_.scan(log, lambda t: t.op == "res" and
                                                                   t.args[0] == "Instant::now")})
                if m == "resume":
                    latest = now


def typed(v):
    tm.UINTS.add(v)
    return v


def spoken(S, v):
    for x in S.elems(v):
        if x[1] == "word":
            return True
        if x[1] == "shown":
            return False
    return False
