from props.lib import *


def inside(iv, x):
    return forall(length(iv), lambda k: conj(is_finite(idx(x, k)), bnot(flt(idx(x, k), field(idx(iv, k), 0))),
                                            bnot(flt(field(idx(iv, k), 1), idx(x, k)))))


def check(c):
    iv = c.sym("intervals")
    fin = forall(length(iv), lambda k: fle(field(idx(iv, k), 0), field(idx(iv, k), 1)))
    with c.part("pre-birth"):
        A = "genetic::pre_birth::vec_float::CheckChromoInterval"
        new = c.new(A, iv)
        c.nopanic("pre-birth interval filter is constructed", new, fin)

        def sized(pop, ch):
            return forall(length(ch), lambda j: ieq(length(idx(ch, j)), length(iv)))

        def body(r, a, name, pre):
            pop, ch = a
            c.refuses(name, r, bnot(sized(pop, ch)), conj(pre, fin))
            c.ob(name, r, r.arg(3), filtered(length(ch), lambda j: inside(iv, idx(ch, j)), lambda j: idx(ch, j)),
                 pre=conj(pre, fin, sized(pop, ch)))
        c.calls("children outside the box are removed", c.fn(A, "pre_birth", "genetic::PreBirth"), new.ret,
                lambda s: [c.sym("population" + s), c.sym("children" + s)], body,
                lambda *a: conj(fin, sized(*a)))
    with c.part("selection"):
        A = "genetic::selection::vec_float::CheckChromoInterval"
        new = c.new(A, iv)
        c.nopanic("selection interval filter is constructed", new, fin)

        def sized2(pop):
            s = c.get(pop, POP, "individuals")
            return forall(length(s), lambda j: ieq(length(c.get(idx(s, j), I, "chromosomes")), length(iv)))

        def body(r, a, name, pre):
            pop = a[0]
            s = c.get(pop, POP, "individuals")

            def one(j):
                x = idx(s, j)
                ok = inside(iv, c.get(x, I, "chromosomes"))
                return c.put(x, I, "alive", band(ok, c.get(x, I, "alive")))
            c.refuses(name, r, bnot(sized2(pop)), conj(pre, fin))
            c.ob(name, r, r.arg(2), c.put(pop, POP, "individuals", vec(length(s), one)),
                 pre=conj(pre, fin, sized2(pop)))
        c.calls("individuals outside the box are killed", c.fn(A, "kill", "genetic::Selection"), new.ret,
                lambda s: [c.sym("population" + s)], body, lambda *a: conj(fin, sized2(*a)))
