from props.lib import *
from props.pipe import *
from props import c11
from props.c26 import quiet

VALMODES = [dict(len=1, agents=3, palette=VALS, iters=2, special=40, kill=10),
            dict(len=2, agents=4, palette=VALS[:4], iters=2, special=50, nanonly=True, kill=10)] + PMODES


def check(c):
    for label, cls, fields in (("genetic", Genetic, 2), ("swarm", Swarming, 2)):
        with c.part(label):
            alg = cls(c)
            observe(c, alg, label + " optimizer ranks its agents", ranking if cls is Genetic else swarm_ranking,
                    (alg.agents, alg.best, alg.worst), (STOP, GOAL) + LOG, modes=VALMODES)
            for h in histories(alg):
                c.ob("%s optimizer: no comparison fails: %s" % (label, h.name), c.where(h.calls[-1][2]), bnot(h.ok), FALSE,
                     pre=h.dom, over=alg.over(), modes=VALMODES, limit=15, rounds=60, steered=False,
                     proofs=[p for x in sorted(set(h.ops)) for p in quiet(alg, x)])
    c11.check(c, order_only=True)
    with c.part("duel"):
        duel(c)


def ranking(M, calls):
    """a generation's best is no NaN while there is a number and no worse than any finite one; its worst is the
    largest where all are finite"""
    for call in calls:
        for k, (q, body) in enumerate(call.segments()[1]):
            s = q[1]
            if k == 0:
                continue
            vals = [M.value(x) for x in M.agents(s)]
            fin = [v for v in vals if not isinstance(v, float)]
            b, w = M.record(s, "best"), M.record(s, "worst")
            if not vals or b is None or w is None:
                continue
            b, w = M.value(b), M.value(w)
            txt = " ".join(show_val(x) for x in vals)
            if b != b and any(v == v for v in vals):
                return "the best of %s is NaN" % txt
            if fin and (b == INFV or not isinstance(b, float) and b > min(fin)):
                return "the best of %s is %s" % (txt, show_val(b))
            if len(fin) == len(vals) and (isinstance(w, float) or w < max(fin)):
                return "the worst of %s is %s" % (txt, show_val(w))
    return None


def swarm_ranking(M, calls):
    for call in calls:
        for n, a in call.events:
            if n != STOP:
                continue
            s = a[1]
            vals = [M.value(x) for x in M.agents(s)]
            fin = [v for v in vals if not isinstance(v, float)]
            r = [M.record(s, w) for w in ("best", "worst")]
            if not vals or None in r:
                continue
            b, w = [M.value(x) for x in r]
            txt = " ".join(show_val(x) for x in vals)
            if fin and (isinstance(b, float) and b != -INFV or not isinstance(b, float) and b > min(fin)):
                return "the best so far is %s although there are %s" % (show_val(b), txt)
            if fin and not isinstance(w, float) and w < max(fin):
                return "the worst so far is %s although there are %s" % (show_val(w), txt)
            if any(v != v for v in vals) and not isinstance(w, float):
                return "the worst so far is %s although there are %s" % (show_val(w), txt)
            for k, x in enumerate(M.agents(s)):
                v, p, q = M.value(x), M.S.asnum(M.of(x, "best_personal_value")), M.S.asnum(M.of(x, "worst_personal_value"))
                if not isinstance(v, float) and (p != p or p == INFV or not isinstance(p, float) and p > v):
                    return "particle %d: %s counts as better than %s" % (k, show_val(p), show_val(v))
                if not isinstance(v, float) and not isinstance(q, float) and q < v:
                    return "particle %d: %s counts as worse than %s" % (k, show_val(q), show_val(v))
                if v != v and not isinstance(q, float):
                    return "particle %d: %s counts as worse than NaN" % (k, show_val(q))
    return None


def duel(c):
    """one round of a tournament between two random individuals"""
    A = "genetic::pairing::Tournament"
    t = c.run(c.fn(A, "partners_count", None), c.new(A, ONE).ret, ONE)
    t = c.run(c.fn(A, "rounds_count", None), t.ret, ONE)
    pop = c.sym("population")
    s = c.get(pop, POP, "individuals")
    pre = ilt(ZERO, length(s))
    r = c.run(c.fn(A, "get_pairs", "genetic::Pairing"), t.ret, pop, pre=pre)
    c.nopanic("tournament duel", r, pre)
    n = length(s)
    g = lambda i: c.get(idx(s, i), I, "fitness")
    st = rdraw(False, "u", ZERO, n, "start", ZERO, ZERO)
    ch = rdraw(False, "u", ZERO, n, "challenger", ZERO, ZERO, ZERO)
    wins = ite(is_nan(g(st)), bnot(is_nan(g(ch))), flt(g(ch), g(st)))
    mine = ite(wins, ch, st)
    out = lambda w: agg("tuple", 0, (vec(n, lambda k: g(k)), w))

    def judge(S, v):
        vals = [S.asnum(x) for x in S.elems(S.fieldof(v, 0))]
        fam = [S.elems(f) for f in S.elems(S.fieldof(v, 1))]
        if len(fam) != 1 or len(fam[0]) != 1:
            return None
        w = S.asint(fam[0][0])
        if not 0 <= w < len(vals):
            return None
        for d in S.draws.values():
            x = vals[int(d)]
            if c11.worse(vals[w], x) and all(not isinstance(y, float) or y != y for y in (x, vals[w])):
                return "the winner of value %s has met one of value %s" % (show_val(vals[w]), show_val(x))
        return None
    c.ob("tournament duel: the winner is not worse", r, out(r.ret), out(vec(ONE, lambda k: vec(ONE, lambda j: mine))),
         pre=pre, judge=judge)
