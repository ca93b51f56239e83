from props.lib import *
from props.pipe import *


def check(c):
    with c.part("not finite"):
        A = "genetic::selection::KillFitnessNaN"
        new = c.new(A)

        def body(r, a, name, pre):
            pop = a[0]
            s = c.get(pop, POP, "individuals")

            def one(k):
                x = idx(s, k)
                return c.put(x, I, "alive", ite(is_finite(c.get(x, I, "fitness")), c.get(x, I, "alive"), FALSE))
            c.returns(name, r, r.arg(2), c.put(pop, POP, "individuals", vec(length(s), one)), pre)
        c.calls("individuals of no finite value are killed", c.fn(A, "kill", "genetic::Selection"), new.ret,
                lambda s: [c.sym("population" + s)], body)
    with c.part("kill"):
        x = c.sym("individual")
        r = c.run(c.fn(I, "kill", None), x)
        c.returns("killing marks the individual dead and nothing else", r, r.arg(1), c.put(x, I, "alive", FALSE))
        r = c.run(c.fn(I, "is_alive", None), x)
        c.returns("the life mark is shown as it is", r, tm.boolatom(r.ret), alive(c, x))
        w = c.put(c.whole(x, I), I, "alive", alive(c, x))
        r = c.run(c.fn(I, "clone", "core::clone::Clone"), w)
        c.returns("a copy of a killed individual is dead, too", r, alive(c, r.ret), alive(c, x))
    with c.part("generations"):
        alg = Genetic(c)
        observe(c, alg, "the dead never survive a generation", survivors, (alg.agents,), (STOP, "Selection::kill"))


def survivors(M, calls):
    for call in calls:
        segs = call.segments()[1]
        for k, (q, body) in enumerate(segs):
            after = M.agents(segs[k + 1][0][1]) if k + 1 < len(segs) else M.agents(M.state(call.after))
            if not all(M.alive(x) for x in after):
                return "a killed individual is in the population after generation %d of %s" % (k + 1, call.which)
            kills = [a for n, a in body if n == "Selection::kill"]
            if not kills or k + 1 == len(segs):
                continue
            left = [x for x in M.survivors(kills[-1]) if M.alive(x)]
            if not M.same_list([M.point(x) for x in left], [M.point(x) for x in after]):
                return "after generation %d of %s not precisely the living individuals remain in order" % (k + 1, call.which)
            # once dead, dead for every later selection
            for a, b in zip(kills, kills[1:]):
                if not M.same_list(M.survivors(a), M.agents(b[1])):
                    return "a selection does not get the life marks the one before left"
    return None
