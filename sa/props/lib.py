"""notions shared by several properties"""
from ctx import *
import decide as decide_

P = "particleswarm::Particle"
S = "particleswarm::Swarm"
I = "genetic::Individual"
POP = "genetic::Population"
LESS, EQUAL, GREATER = (agg("core::cmp::Ordering", i, ()) for i in range(3))


def rank(x, y):
    """order of goal values: numeric on finite ones, everything that is not finite ties behind them"""
    fx, fy = is_finite(x), is_finite(y)
    num_ = ite(eqn(x, y, "f"), EQUAL, ite(lt(x, y, "f"), LESS, GREATER))
    return ite(fx, ite(fy, num_, LESS), ite(fy, GREATER, EQUAL))


def better(x, y):
    """x strictly before y in the ranking"""
    return band(is_finite(x), bor(bnot(is_finite(y)), lt(x, y, "f")))


def best_of(s, val, order=rank):
    p, q = fresh_phi("x"), fresh_phi("y")
    return tm.minby(s, p, q, order(val(p), val(q)))


def worst_of(s, val, order=rank):
    p, q = fresh_phi("x"), fresh_phi("y")
    return tm.maxby(s, p, q, order(val(p), val(q)))


def no_ties(s, val):
    n = length(s)
    def tie(x, y):
        return bor(conj(is_finite(x), is_finite(y), eqn(x, y, "f")), band(bnot(is_finite(x)), bnot(is_finite(y))))
    return forall(n, lambda i: forall(n, lambda j: bor(ile(j, i), bnot(tie(val(idx(s, i)), val(idx(s, j)))))))


def alive(c, x):
    """life mark of an individual"""
    return tm.boolatom(c.get(x, I, "alive"))


def count(n, f):
    return sigma(n, lambda k: ite(f(k), ONE, ZERO))


RICH = [Fraction(1, 3), Fraction(41, 7), Fraction(-31, 11), Fraction(1000003, 17), Fraction(-5, 9973), Fraction(2, 13),
        Fraction(-7, 3), Fraction(10 ** 9 + 7, 3)]
BITMODES = [dict(len=2, palette=RICH), dict(len=2, palette=RICH[::-1]), dict(len=2), dict(len=2, palette=RICH[:3]),
            dict(len=3, palette=RICH), dict(len=1, palette=RICH), dict(len=0)]


def project(trace, f, keep=False):
    """what f(event) makes of every event of a trace, in order; keep: unexpanded parts of the trace stay"""
    memo = {}

    def go(v):
        r = memo.get(v)
        if r is None:
            r = memo[v] = step(v)
        return r

    def step(v):
        if isinstance(v, N):
            return ite(node(v.atom, TRUE, FALSE), go(v.hi), go(v.lo))
        if v.op == "lit":
            return cat(*[each(e) for e in v.args[0]])
        if v.op == "cat":
            return cat(*[go(x) for x in v.args[0]])
        if v.op in ("comp", "flat"):
            k = fresh_k()
            b = tm.openb(v.args[1], v.args[2], {"k": k})
            return flat(v.args[0], k, each(b) if v.op == "comp" else go(b))
        if v.op == "ev":
            return f(v)
        return v if keep else unk("trace " + v.op, v)

    def each(e):
        if isinstance(e, N):
            return ite(node(e.atom, TRUE, FALSE), each(e.hi), each(e.lo))
        return f(e) if e.op == "ev" else unk("trace " + e.op, e)
    return go(trace)


def outcome(v, pick, val):
    """v where every condition pick(atom) has the outcome val"""
    for a in conditions(v, pick):
        v = decide_.fix_atom(v, a, val)
    return v


def conditions(v, pick):
    seen, out, st = set(), [], [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, (Val, Atom)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, N):
            st.extend((x.lo, x.hi, x.atom))
        else:
            if isinstance(x, Atom) and pick(x):
                out.append(x)
            st.extend(a for a in x.args if isinstance(a, (Val, Atom, tuple)))
    return out
