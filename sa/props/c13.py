from props.lib import *

M = "genetic::pairing::"
T = "genetic::Pairing"


def check(c):
    with c.part("random pairs"):
        A = M + "RandomPairing"
        new = c.new(A)

        def body(r, a, name, pre):
            n = length(c.get(a[0], POP, "individuals"))
            pair = vec(tm.intdiv("idiv", n, num(2)), lambda k: lit(rdraw(False, "u", ZERO, n, "first", k),
                                                                  rdraw(False, "u", ZERO, n, "second", k)))
            c.returns(name, r, r.ret, ite(ile(n, ZERO), NIL, pair), pre)
        c.calls("random pairing", c.fn(A, "get_pairs", T), new.ret, lambda s: [c.sym("population" + s)], body)
    with c.part("tournament"):
        A = M + "Tournament"
        fam, par, rnd = (c.sym(x, "usize") for x in ("families", "partners", "rounds"))
        new = c.new(A, fam)
        with_p = c.run(c.fn(A, "partners_count", None), new.ret, par)
        with_pr = c.run(c.fn(A, "rounds_count", None), with_p.ret, rnd)
        with_r = c.run(c.fn(A, "rounds_count", None), new.ret, rnd)
        with_rp = c.run(c.fn(A, "partners_count", None), with_r.ret, par)
        c.ob("the order of the tournament options does not matter", with_rp, with_rp.ret, with_pr.ret)
        f = c.fn(A, "get_pairs", T)

        def beats(s, x, y):
            """challenger x replaces y"""
            gx, gy = c.get(idx(s, x), I, "fitness"), c.get(idx(s, y), I, "fitness")
            return ite(is_nan(gy), bnot(is_nan(gx)), flt(gx, gy))

        def rule(s, fam, par, rnd):
            n = length(s)

            def winner(k, j):
                def step(i, best):
                    ch = rdraw(False, "u", ZERO, n, "challenger", k, j, i)
                    return ite(beats(s, ch, best), ch, best)
                return folded(rnd, rdraw(False, "u", ZERO, n, "start", k, j), step)
            return ite(ile(n, ZERO), NIL, vec(fam, lambda k: vec(par, lambda j: winner(k, j))))

        def body(r, a, name, pre):
            c.returns(name, r, r.ret, rule(c.get(a[0], POP, "individuals"), fam, par, rnd), pre)
        c.calls("tournament", f, with_pr.ret, lambda s: [c.sym("population" + s)], body)
        pop = c.sym("population")
        r = c.run(f, new.ret, pop)
        c.returns("tournament without options: pairs after one round", r, r.ret,
                  rule(c.get(pop, POP, "individuals"), fam, num(2), ONE))
