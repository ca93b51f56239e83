"""Deciding one obligation: does a value graph of the code equal the graph its
property demands, for every input of the domain?

1. value numbering: the two graphs are brought to one canonical form (results
   and effects of opaque calls are named by what was called with what; random
   draws by a bijection of their sites) and compared path by path;
2. graphs that value numbering cannot unify are interpreted under valuations of
   their opaque inputs: a valuation that separates them under every matching of
   the random draws is a witness of a violation.
"""
import time
import itertools
from fractions import Fraction

from terms import *
import terms as tm
import evalr
from evalr import Sample, Discard, Undecided, show_val

_strip = {}


def strip(v):
    """name opaque results by call and arguments only"""
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Val, Atom)):
            return x
        r = _strip.get(x)
        if r is not None:
            return r
        if isinstance(x, N):
            r = ite(tm.rebuild_atom(x.atom, go), go(x.hi), go(x.lo))
        elif isinstance(x, Atom):
            r = tm.rebuild_atom(x, go)
        elif x.op == "res" and len(x.args) > 3:
            r = tm.generic("res", (x.args[0], 0, (), go(x.args[3])))
        elif x.op == "ev":
            r = tm.generic("ev", (x.args[0], go(x.args[1]), 0, (), ""))
        elif x.op == "evout":
            r = tm.generic("evout", (x.args[0], x.args[1], 0, (), go(x.args[4])))
        elif x.op in ("sym", "k", "phi", "bv", "true", "false", "bot", "fconst", "str", "infn", "fn", "cst"):
            r = x
        else:
            r = tm.rebuild(x, go)
        if r is not x:
            tm.remark(x, r) if isinstance(x, T) else None
        _strip[x] = r
        return r
    return go(v)


def scan(v, pick, seen=None, out=None):
    """terms t of the graph with pick(t), in first-reached order"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(reversed(x))
            continue
        if not isinstance(x, (Val, Atom)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, N):
            st.extend((x.lo, x.hi, x.atom))
        else:
            if isinstance(x, T) and pick(x):
                out.append(x)
            st.extend(reversed([a for a in x.args if isinstance(a, (Val, Atom, tuple))]))
    return out


def draw_sites(v):
    out = []
    for d in scan(v, lambda t: t.op == "draw"):
        if d.args[1] not in out:
            out.append(d.args[1])
    return out


def resite(v, m):
    """rename draw sites"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Val, Atom)):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, N):
            r = ite(tm.rebuild_atom(x.atom, go), go(x.hi), go(x.lo))
        elif isinstance(x, Atom):
            r = tm.rebuild_atom(x, go)
        elif x.op == "draw":
            a = x.args
            r = tm.generic("draw", (go(a[0]), m.get(a[1], a[1]), go(a[2]), a[3]))
        elif x.op in ("sym", "k", "phi", "bv", "true", "false", "bot", "fconst", "str", "infn", "fn", "cst"):
            r = x
        else:
            r = tm.remark(x, tm.rebuild(x, go))
        memo[x] = r
        return r
    return go(v)


def site_matchings(code, spec, cs, ss, limit=60):
    """bijections of draw sites under which the graphs may coincide: a site can only correspond to one that occurs
    in the same way"""
    def signatures(v, sites):
        g = {}
        for s in sites:
            m = {x: "other" for x in sites}
            m[s] = "this"
            g.setdefault(resite(v, m), []).append(s)
        return g
    a, b = signatures(code, cs), signatures(spec, ss)
    if set(a) == set(b) and all(len(a[k]) == len(b[k]) for k in a):
        groups = [[dict(zip(b[k], p)) for p in itertools.islice(itertools.permutations(a[k]), limit)] for k in a]
    elif len(cs) <= 4:
        groups = [[dict(zip(ss, p)) for p in itertools.permutations(cs)]]
    else:
        return
    for combo in itertools.islice(itertools.product(*groups), limit):
        m = {}
        for x in combo:
            m.update(x)
        yield m


def same(pre, a, b):
    """equal on every path allowed by pre"""
    memo = {}

    def go(p, x, y):
        if x is y or p is FALSE:
            return True
        key = (p, x, y)
        r = memo.get(key)
        if r is None:
            memo[key] = False
            r = memo[key] = step(p, x, y)
        return r

    def step(p, x, y):
        top = None
        for v in (p, x, y):
            if isinstance(v, N) and (top is None or v.atom.id < top.id):
                top = v.atom
        if top is None or (isinstance(x, T) and isinstance(y, T)):
            if x.op == "agg" and y.op == "agg" and x.args[:2] == y.args[:2] and len(x.args[2]) == len(y.args[2]):
                return all(go(p, u, w) for u, w in zip(x.args[2], y.args[2]))
            if x.op == "rec" and y.op == "rec" and x.args[0] is y.args[0]:
                ks = [k for k, _ in x.args[1]]
                return ks == [k for k, _ in y.args[1]] and \
                    all(go(p, u, w) for (_, u), (_, w) in zip(x.args[1], y.args[1]))
            if x.op == "lit" and y.op == "lit" and len(x.args[0]) == len(y.args[0]):
                return all(go(p, u, w) for u, w in zip(x.args[0], y.args[0]))
            if x.op == "ev" and y.op == "ev" and x.args[0] == y.args[0] and len(x.args[1]) == len(y.args[1]):
                return all(go(p, u, w) for u, w in zip(x.args[1], y.args[1]))
            return False
        p1, p0 = tm._cof(p, top)
        x1, x0 = tm._cof(x, top)
        y1, y0 = tm._cof(y, top)
        return go(p1, x1, y1) and go(p0, x0, y0)
    return go(pre, a, b) or same_paths(pre, a, b)


def same_paths(pre, a, b, limit=6000):
    """as same, following only the paths whose integer comparisons are consistent with each other"""
    steps = [0]

    def bound(at, rng):
        """truth of a comparison under the bounds collected so far, or None; and the bounds after either outcome"""
        l, c = tm.linsplit(at.args[0])
        lo, hi = rng.get(l, (None, None))
        # l + c <= 0
        if hi is not None and hi <= -c:
            return True, None, None
        if lo is not None and lo > -c:
            return False, None, None
        if tm.nonneg(l) and -c < 0:
            return False, None, None
        # a number of indices with a property is at most the number of all
        for m, cf in poly(l).items():
            if cf == 1 and len(m) == 1 and m[0][1] == 1 and tm.is_count(m[0][0]):
                l2, c2 = tm.linsplit(tm._add(tm._add(l, tm._neg(m[0][0])), m[0][0].args[0]))
                h2 = rng.get(l2, (None, None))[1]
                if h2 is not None and h2 + c2 <= -c:
                    return True, None, None
        for t, r in rng.items():
            if isinstance(t, T) and tm.is_count(t) and r[0] is not None:
                d = const(tm._add(l, tm._neg(t.args[0])))
                if d is not None and r[0] + d > -c:
                    return False, None, None
        t, f = dict(rng), dict(rng)
        t[l] = (lo, -c if hi is None else min(hi, -c))
        f[l] = (1 - c if lo is None else max(lo, 1 - c), hi)
        return None, t, f

    def quantified(at, rng):
        n, lv, body = at.args
        key = ("any", n)
        known = rng.get(key, ())
        k = fresh_any(n)
        b = openb(lv, body, {"k": k})
        for v, other in known:
            if v is False and band(b, bnot(other)) is FALSE:
                return False, None, None
            if v is True and band(other, bnot(b)) is FALSE:
                return True, None, None
        t, f = dict(rng), dict(rng)
        t[key] = known + ((True, b),)
        f[key] = known + ((False, b),)
        return None, t, f

    ks = {}

    def fresh_any(n):
        if n not in ks:
            ks[n] = fresh_k()
        return ks[n]

    def go(p, x, y, rng):
        if x is y or p is FALSE:
            return True
        steps[0] += 1
        if steps[0] > limit:
            return False
        top = None
        for v in (p, x, y):
            if isinstance(v, N) and (top is None or v.atom.id < top.id):
                top = v.atom
        if top is None or (isinstance(x, T) and isinstance(y, T) and not isinstance(p, N)):
            return False
        p1, p0 = tm._cof(p, top)
        x1, x0 = tm._cof(x, top)
        y1, y0 = tm._cof(y, top)
        known, t, f = (None, rng, rng)
        if top.kind == "le0":
            known, t, f = bound(top, rng)
        elif top.kind == "any":
            known, t, f = quantified(top, rng)
        if known is not None:
            t = f = rng
        return (known is False or go(p1, x1, y1, t)) and (known is True or go(p0, x0, y0, f))
    if isinstance(a, T) and isinstance(b, T) and isinstance(pre, T):
        return False
    return go(pre, a, b, {})


def fix_atom(v, at, val, memo=None):
    """v where the condition `at` has the outcome val, also inside sequences and calls; a sequence known to be empty
    becomes the empty one"""
    if val and at.kind == "le0":
        q = poly(at.args[0])
        if len(q) == 1:
            (m, c), = q.items()
            if c > 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len":
                return tm.replace(tm.replace(v, {m[0][0].args[0]: NIL}), {m[0][0]: ZERO})
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Val, Atom)):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, N):
            if x.atom is at:
                r = go(x.hi if val else x.lo)
            else:
                r = ite(tm.rebuild_atom(x.atom, go), go(x.hi), go(x.lo))
        elif isinstance(x, Atom):
            r = tm.rebuild_atom(x, go)
        elif x.op in tm._LEAFOPS:
            r = x
        else:
            r = tm.remark(x, tm.rebuild(x, go))
        memo[x] = r
        return r
    return go(v)


def same_split(pre, a, b, limit=60):
    """path by path, carrying the outcome of every condition into the values"""
    steps = [0]

    def go(p, x, y):
        if p is FALSE or same(p, x, y):
            return True
        steps[0] += 1
        if steps[0] > limit:
            return False
        top = None
        for v in (p, x, y):
            if isinstance(v, N) and (top is None or v.atom.id < top.id):
                top = v.atom
        if top is None:
            return False
        return all(go(*(fix_atom(v, top, val) for v in (p, x, y))) for val in (True, False))
    return go(pre, a, b)


def implied(p, facts):
    """truth of p <= 0 if it follows from at most two of the facts (each f <= 0), else None"""
    def below(q):
        l, c = tm.linsplit(q)
        if c <= 0 and l is ZERO:
            return True
        for i, (l1, c1) in enumerate(facts):
            d, e = tm.linsplit(tm._add(l, tm._neg(l1)))
            if const(d) is not None:
                if c - c1 + (const(d) or 0) + e <= 0:
                    return True
                continue
            for l2, c2 in facts[i + 1:]:
                if const(tm._add(d, tm._neg(l2))) == 0 and c - c1 - c2 + e <= 0:
                    return True
        return False
    if below(p):
        return True
    if below(tm._add(ONE, tm._neg(p))):
        return False
    return None


def assume(v, facts):
    """v simplified knowing the integer facts (f <= 0) and the ranges of its bound variables"""
    memo = {}

    def go(x, facts):
        if isinstance(x, tuple):
            return tuple(go(y, facts) for y in x)
        if not isinstance(x, (Val, Atom)):
            return x
        key = (x, len(facts), facts[-1] if facts else None)
        r = memo.get(key)
        if r is not None:
            return r
        if isinstance(x, N):
            r = None
            if x.atom.kind == "le0":
                d = implied(x.atom.args[0], facts)
                if d is not None:
                    r = go(x.hi if d else x.lo, facts)
            if r is None:
                r = ite(go(x.atom, facts), go(x.hi, facts), go(x.lo, facts))
        elif isinstance(x, T) and x.op in tm._LEAFOPS:
            r = x
        else:
            n = x.args[0] if x.args and isinstance(x.args[0], T) else None

            def sub_(y):
                fs = facts
                if n is not None and isinstance(y, (Val, Atom)):
                    for k in y.free:
                        if k.op == "k" and k not in x.free:
                            fs = fs + [tm.linsplit(tm._add(tm._add(k, tm._neg(n)), ONE))]
                return go(y, fs)
            if isinstance(x, Atom):
                r = tm.rebuild_atom(x, sub_) if x.kind != "le0" else node(x, TRUE, FALSE)
            else:
                r = tm.remark(x, tm.rebuild(x, sub_))
        memo[key] = r
        return r
    return go(v, facts)


def integer_facts(pre):
    out = []
    if isinstance(pre, T):
        return out
    for a, v in tm.literals(pre).items():
        if a.kind == "le0":
            p = a.args[0] if v else tm._add(ONE, tm._neg(a.args[0]))
            out.append(tm.linsplit(p))
    return out


MODES = [
    dict(len=2), dict(len=3), dict(len=1), dict(len=0), dict(),
    dict(len=2, special=25), dict(len=3, palette=[Fraction(0), Fraction(1)]),
    dict(len=3, special=30, palette=[Fraction(1), Fraction(2)]), dict(perlen=True),
    dict(len=2, palette=[Fraction(0), Fraction(50), Fraction(100), Fraction(99), Fraction(1, 2), Fraction(-1)]),
    dict(len=3, ptrue=20), dict(len=2, ptrue=85, psome=90), dict(len=3, psome=30), dict(special=15), dict(len=4),
    dict(len=2, palette=[Fraction(3, 10), Fraction(7, 10), Fraction(1, 5), Fraction(9, 10)], intmax=40),
    dict(len=3, palette=[Fraction(-7), Fraction(13), Fraction(29), Fraction(5), Fraction(-31), Fraction(17),
                         Fraction(41, 3)], intmax=9),
    dict(len=2, samedraw=True), dict(len=3, samedraw=True, special=20), dict(len=1, samedraw=True),
    dict(len=3, special=35, nanonly=True, ptrue=85, intmax=3), dict(len=4, special=25, ptrue=90, intmax=3),
    dict(len=2, special=40), dict(len=1, special=50), dict(len=2, special=20, anywhere=True),
]


class Ob(object):
    """one obligation: `code` must equal `spec` wherever `pre` holds"""

    def __init__(self, name, where, code, spec=None, pre=TRUE, judge=None, over=None, modes=None, rounds=4000,
                 rule=None, view=None, ctx=None, proofs=None, limit=None, steered=True):
        self.name, self.where, self.code, self.spec, self.pre = name, where, code, spec, pre
        self.judge, self.over, self.modes, self.rounds = judge, over, modes, rounds
        self.rule = rule
        self.view = view
        self.ctx = ctx or {}
        self.status = None
        self.detail = None
        self.samples = 0
        self.limit = limit or LIMIT
        self.proofs = proofs       # [(name, code, spec, pre)]: all of them together imply the obligation
        self.open = []
        self.matchings = {}
        self.steered = steered      # move the valuations of a judged run to the boundaries of its conditions
        self.always = False        # sample even when proved


def equalities(pre):
    """terms that pre forces to be equal to a linear combination of others: [(term, value)]"""
    out = []
    if isinstance(pre, T):
        return out
    true = [a.args[0] for a, v in tm.literals(pre).items() if a.kind == "le0" and v]
    false = [tm._add(ONE, tm._neg(a.args[0])) for a, v in tm.literals(pre).items() if a.kind == "le0" and not v]
    known = true + false
    for p in known:
        if tm._neg(p) in known:
            q = poly(p)
            cands = [m for m, c in q.items() if len(m) == 1 and m[0][1] == 1 and abs(c) == 1]
            if not cands:
                continue
            m = max(cands, key=lambda m: m[0][0].id)
            x = m[0][0]
            cf = q.pop(m)
            rest = frompoly(q)
            val = tm._mul(num(-cf), rest)
            if not scan(val, lambda t: t is x):
                out.append((x, val))
    return out


def unify(pre, *vs):
    """apply the equalities of pre"""
    vs = [pre] + list(vs)
    done = set()
    for _ in range(8):
        eqs = [(x, y) for x, y in equalities(vs[0]) if x not in done]
        if not eqs:
            break
        x, y = eqs[0]
        done.add(x)
        m = {x: y}
        # lengths inside comprehension bounds and conditions
        vs = [tm.replace(v, m) if v is not None else None for v in vs]
    return vs


def prove(code, spec, pre):
    """value numbering: equal on every path allowed by pre"""
    if same(pre, code, spec):
        return True
    if not isinstance(pre, T):
        pre2, code2, spec2 = unify(pre, code, spec)
        if same(pre2, code2, spec2):
            return True
        fs = integer_facts(pre2)
        if fs and same(pre2, assume(code2, fs), assume(spec2, fs)):
            return True
    if same_split(pre, code, spec):
        return True
    cs, ss = draw_sites(code), draw_sites(spec)
    if cs and len(cs) == len(ss):
        for m in site_matchings(code, spec, cs, ss):
            if same(resite(pre, m), code, resite(spec, m)):
                return True
    return False


def decide(ob, seed=1):
    todo = proving(ob)
    if todo:
        sampled(ob, *todo, seed)
        settled(ob)
    return ob


def settled(ob):
    if ob.proofs and not ob.open and ob.status != "violation":
        ob.status = "proved"


def proving(ob):
    """try value numbering; the stripped graphs when valuations remain to be tried"""
    if ob.status is not None:
        return None
    code = strip(ob.code)
    spec = strip(ob.spec) if ob.spec is not None else None
    pre = strip(ob.pre)
    if spec is not None and prove(code, spec, pre):
        ob.status = "proved"
        return (code, spec, pre) if ob.always else None
    if ob.proofs:
        ob.open = [n for n, a, b, p in ob.proofs if not prove(strip(a), strip(b), strip(p))]
        if not ob.open and not ob.always:
            ob.status = "proved"
            return None
    return code, spec, pre


LIMIT = 7.0    # seconds per obligation
TRIAL = 60.0   # seconds per valuation


def sampled(ob, code, spec, pre, seed0=1, share=(0, 1)):
    """share (i, n): every n-th of the valuations, from the i-th"""
    t0, w0 = time.process_time(), time.time()
    evalr.KIND.clear()
    evalr.MAXVAR.clear()
    ok = 0
    undecided = None
    modes = ob.modes or MODES
    extra = targeted(ob, code, spec, modes)
    steered = ob.steered
    count = 0

    def late():
        # own processor time, unless the machine is very busy
        d = max(time.process_time() - t0, (time.time() - w0) / 4)
        return d > ob.limit and (ok > 0 or undecided or d > 4 * ob.limit)
    for rnd in range(ob.rounds):
        for mi, mode in enumerate(extra + modes if rnd in (1, 2) or rnd > 3 and rnd % 4 == 0 else modes):
            if late():
                break
            count += 1
            if count % share[1] != share[0]:
                continue
            seed = (rnd + (seed0 - 1) * 1000) * 101 + mi
            r, S = guided(ob, code, spec, pre, seed, mode, {}, steered, late)
            if r == "ok" and steered:
                ok += 1
                for j in range(4 if S.log else 0):
                    if late():
                        break
                    h = evalr.crc((seed, j))
                    e = S.log[h % len(S.log)]
                    f = exotic(S, S.log, h) if j == 3 else None
                    if f is None:
                        f = steer(S, e, DELTAS[(h >> 8) % len(DELTAS)], h >> 12)
                    if f is None:
                        continue
                    r, _ = guided(ob, code, spec, pre, seed, mode, f, steered, late)
                    if r == "ok":
                        ok += 1
                    elif isinstance(r, tuple):
                        break
            elif r == "ok":
                ok += 1
            if isinstance(r, tuple):
                if r[0] == "undecided":
                    undecided = r[1]
                    continue
                ob.status, ob.detail = "violation", r[1]
                ob.samples = ok
                return
    ob.samples = ok
    if ok:
        ob.status = "agree"
    else:
        ob.status = "undecided"
        ob.detail = undecided or "no valuation inside the domain"


WIDE = [Fraction((i * 37) % 401 - 200, 4) for i in range(401)]
PRECISE = [Fraction(x) for x in (0.1, 1 / 3, -2.7, 1 + 2.0 ** -40, float((1 << 30) + 1), 1e-7, 0.3, -0.7)]
TINY = Fraction(1, 1 << 56)
DELTAS = [Fraction(0), TINY, -TINY, Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 8), Fraction(-1, 8),
          Fraction(1, 1 << 1030), Fraction(-1, 1 << 1030)]


def guided(ob, code, spec, pre, seed, mode, force, steered, late):
    """one valuation, moved into the domain where that is possible: (outcome, sample)"""
    repairs = 0
    S = None
    evalr.DEADLINE = time.process_time() + TRIAL
    for _ in range(400):
        try:
            S = Sample(seed, mode, ob.over)
            S.force = force
            if steered:
                S.log = []
                p = S.asbool(S.ev(pre))
                if S.learn:
                    continue
                if not p:
                    repairs += 1
                    if repairs > 20 and late():
                        return "discard", S
                    force = repair(S, repairs) if repairs < 220 else None
                    if force is None:
                        return "discard", S
                    continue
                S.log = []
            r = trial(ob, code, spec, pre, S)
        except (Discard, evalr.Slow):
            return "discard", S
        except Undecided as e:
            return ("undecided", str(e)), S
        if r != "relearn":
            return r, S
    return "discard", S


def like(S, force):
    Q = Sample(S.seed, dict(S.mode, steps=20000), S.over)
    Q.force = force
    Q.memo = evalr.Forgetful()
    Q.cache = evalr.Forgetful()
    Q.alias = S.alias
    return Q


def repair(S, n):
    """inputs under which the last comparison that excluded S from the domain comes out the other way"""
    h = evalr.crc((S.seed, n))
    last = S.log[-3:][::-1]
    for e in last if n % 4 else S.log[-12:-3][::-1][(h >> 4) % 5:] + last:
        at, env, out = e
        if at.kind in ("nan", "inf"):
            f = ordinary(S, e, h)
        else:
            size = (Fraction(1), Fraction(1, 2), Fraction(2), Fraction(5), Fraction(1, 4))[h % 5]
            if at.kind == "le0":
                d = Fraction(1) if out else Fraction(0)
            elif at.kind == "flt":
                d = (Fraction(0) if h & 64 else size) if out else -size
            else:
                d = size if out else Fraction(0)
            f = steer(S, e, d, h >> 8)
        if f is not None and f != S.force:
            return f
    return None


def ordinary(S, e, h):
    """replace a special number by an ordinary one"""
    at, env, out = e
    Q = like(S, S.force)
    Q.reads = []
    try:
        Q.num(at.args[0], env)
    except (Discard, Undecided, evalr.Slow):
        return None
    for x in list(Q.reads):
        v = Q.number(x)
        if isinstance(v, float) and (v != v or abs(v) == evalr.INFV):
            pal = S.mode.get("palette", evalr.PALETTE)
            f = dict(S.force)
            f[x] = pal[h % len(pal)]
            return f
    return None


EXOTIC = [evalr.NANV, evalr.INFV, -evalr.INFV, evalr.NNANV]


def exotic(S, log, h):
    """inputs that put special numbers on the sides of a comparison of floats"""
    log = [e for e in log if e[0].kind in ("flt", "feq", "nan", "inf")]
    if not log:
        return None
    at, env, _ = log[(h >> 3) % len(log)]
    f = dict(S.force)
    for i in range(1 if at.kind in ("nan", "inf") else 2):
        g = evalr.crc((h, i))
        if i and not g % 3:
            continue
        Q = like(S, S.force)
        Q.reads = []
        try:
            Q.num(at.args[i], env)
        except (Discard, Undecided, evalr.Slow):
            return None
        leaves = [x for x in Q.reads if "int" not in evalr.KIND.get(evalr.shape(x), ())]
        if leaves:
            f[leaves[(g >> 4) % len(leaves)]] = EXOTIC[(g >> 12) % len(EXOTIC)]
    return f if f != S.force else None


def steer(S, e, delta, h):
    """inputs that make the two sides of a comparison differ by exactly delta"""
    at, env, _ = e

    def diff(force, reads=None):
        Q = like(S, force)
        Q.reads = reads
        if at.kind == "le0":
            x = Q.num(at.args[0], env)
        elif at.kind in ("flt", "feq"):
            x = Q.num(at.args[0], env)
            y = Q.num(at.args[1], env)
            x = evalr.nadd(x, -y)
        else:
            return None
        if Q.learn or isinstance(x, float) and (x != x or abs(x) == evalr.INFV):
            return None
        return Fraction(x)
    try:
        reads = []
        d0 = diff(S.force, reads)
        if d0 is None:
            return None
        leaves = []
        for x in reads:
            if x not in leaves:
                leaves.append(x)
        for j in range(min(len(leaves), 4)):
            x = leaves[(h + j) % len(leaves)]
            v = like(S, S.force).number(x)
            if isinstance(v, float):
                continue
            whole = "int" in evalr.KIND.get(evalr.shape(x), ())
            f = dict(S.force)
            u, du, w, dw = v, d0, v + 1, None
            for _ in range(5):
                f[x] = w
                dw = diff(f)
                if dw is None or dw == du:
                    break
                n = w + (delta - dw) * (w - u) / (dw - du)
                if whole:
                    n = Fraction(round(n))
                    if n < 0:
                        dw = None
                        break
                u, du, w = w, dw, n
                f[x] = w
                if abs(w.numerator) > 1 << 1100 or w.denominator > 1 << 1100:
                    w = Fraction(float(w))
                d = diff(f)
                if d is None:
                    break
                if d == delta or whole:
                    return f
            if dw is not None and dw != d0 and w != v:
                return f
    except (Discard, Undecided, evalr.Slow, OverflowError, ZeroDivisionError):
        pass
    return None


def constants(*vs, loops=True, narrow=None):
    """numbers written in the graphs and in the loops they refer to; narrow collects the integer types cast to"""
    import interp
    out, seen, st = set(), set(), list(vs)
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, (Val, Atom)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, N):
            st.extend((x.lo, x.hi, x.atom))
            continue
        if narrow is not None and isinstance(x, T) and x.op == "bit" and x.args[0] == "cast":
            narrow.add(x.args[1])
        if narrow is not None and isinstance(x, T) and x.op == "r32":
            narrow.add("f32")
        if x.op == "num" if isinstance(x, T) else False:
            for m, cf in poly(x).items():
                out.add(abs(cf))
                st.extend(t for t, _ in m)
            continue
        if isinstance(x, T) and x.op in ("loopval", "trip", "early", "looppanic"):
            rec = interp.LOOPS.get(x.args[0])
            if loops and rec is not None and rec not in seen:
                seen.add(rec)
                st.extend([rec.guard, rec.N] + list(rec.init.values()) + [a for a, _, _ in rec.panics])
                st.extend(v for m in (rec.entry.mem, rec.back.mem) for v in m.values())
        st.extend(a for a in x.args if isinstance(a, (Val, Atom, tuple)))
    return out


def targeted(ob, code, spec, modes):
    """modes built around the numbers the code mentions and the property does not"""
    known = constants(*[v for v in [spec, ob.pre] + [p[2] for p in ob.proofs or ()] if v is not None], loops=False)
    narrow = set()
    new = sorted(c for c in constants(code, narrow=narrow) - known if c not in (0, 1))
    out = []
    base = modes[0]
    if "f32" in narrow:
        narrow.discard("f32")
        out.append(dict(base, palette=PRECISE, ints=[3, 7, 10, (1 << 24) + 1]))
    for w in sorted({tm.WIDTH.get(t, 64) for t in narrow}):
        # a size or a counter that does not fit
        if w <= 16 and "agents" in base:
            out.append(dict(base, agents=1, len=1, kill=0, iters=(1 << w) + 2, steps=4000000))
            if w == 8:
                out.append(dict(base, agents=258, len=1, kill=0, iters=1, steps=8000000))
        elif w == 32:
            out.append(dict(base, intmax=(1 << w) + 300, ints=[(1 << w) + 1, 1 << w, (1 << w) - 1]))
        elif w <= 16 and ob.judge is None:
            out.append(dict(base, len=(1 << w) + 2, samedraw=True, palette=WIDE, steps=8000000, bound=1 << 18))
            out.append(dict(base, intmax=(1 << w) + 300, ints=[(1 << w) + 1, 1 << w, (1 << w) - 1]))
    for c in new[:6]:
        near = [c, c - 1, c + 1] if c.denominator == 1 else [c]
        m = dict(base, palette=[c, -c, c * 2, c / 2, Fraction(0), Fraction(1)] + near)
        if c.denominator == 1 and c > 1:
            m["ints"] = [int(x) for x in near]
        out.append(m)
        if c.denominator == 1 and 130 < c <= 4096 and "agents" not in base:
            for n in (int(c) + 1, int(c), int(c) * 2 + 1):
                out.append(dict(base, len=n, samedraw=True, palette=WIDE, bound=1 << 14, steps=4000000))
        if c.denominator == 1 and 2 < c <= 130:
            for n in (int(c), int(c) + 1, int(c) - 1, int(c) + 2) + ((int(c) * 3 + 1,) if c <= 12 else ()):
                if n > c + 2 and ("agents" in base or c is not new[0]):
                    continue                            # long enough for as many of a part
                if "agents" in base:
                    out.append(dict(base, agents=n, len=1 if n > 12 else 2, kill=2, iters=2 if n > 12 else 3, edge=True,
                                    steps=4000000))
                else:
                    out.append(dict(base, len=n, samedraw=True, palette=WIDE if n > 4 else base.get("palette", evalr.PALETTE)))
            if "agents" in base:
                out.append(dict(m, iters=int(min(c + 2, 12))))
    return out


def trial(ob, code, spec, pre, S):
    seed, mode = S.seed, S.mode

    def another():
        Q = Sample(seed, mode, ob.over)
        Q.force = S.force
        return Q
    p = S.asbool(S.ev(pre))
    if S.learn:
        return "relearn"
    if not p:
        return "discard"
    if ob.judge is not None:
        v = S.ev(code)
        msg = ob.judge(S, v)
        if S.learn:
            return "relearn"
        if msg is None or msg is True:
            return "ok"
        if msg == "discard":
            return "discard"
        return ("violation", witness(S, v, None, msg))
    v = S.ev(code)
    if not S.drawn or mode.get("samedraw"):
        w = S.ev(spec)
        if not S.drawn or mode.get("samedraw"):
            if ob.view:
                v, w = ob.view(S, v), ob.view(S, w)
            e = S.eqv(v, w)
            if S.learn:
                return "relearn"
            return "ok" if e else ("violation", witness(S, v, w))
    # random draws: one matching of the draws of both sides must serve every valuation
    dc = [k for k, _ in sorted(S.drawn.items(), key=lambda z: z[1])]
    R = another()
    R.cache = S.cache
    w = R.ev(spec)
    if S.learn or R.learn:
        return "relearn"
    ds = [k for k, _ in sorted(R.drawn.items(), key=lambda z: z[1])]
    if not hasattr(ob, "random"):
        ob.random = drawish(spec)
    nodes, atoms = ob.random
    kept = {k: x for k, x in R.memo.items() if not (
        k in nodes if isinstance(k, int) else k[1] in atoms if k[0] == "@" else k[0] in nodes)}

    def under(m):
        Q = another()
        Q.memo = dict(kept)
        Q.alias = lambda k: m.get(k, ("spec",) + k)
        try:
            w = Q.ev(spec)
            if any(k not in m for k in Q.drawn):
                m2 = extend(m, dc, list(Q.drawn))
                Q = another()
                Q.memo = dict(kept)
                Q.alias = lambda k: m2.get(k, ("spec",) + k)
                w = Q.ev(spec)
        except Discard:
            return False, Q
        return S.eqv(v, w), Q
    for _ in range(3):
        m = next(matchings(dc, ds))
        e, Q = under(m)
        if Q.learn or S.learn:
            return "relearn"
        new = [k for k in Q.drawn if k not in ds]
        if not new:
            break
        ds += new
    ids = {k[:2]: k for k in dc}
    sig = (tuple(sorted(map(drawid, dc), key=repr)), tuple(sorted(map(drawid, ds), key=repr)))
    alive = ob.matchings.get(sig)
    if alive is None:
        cands = (tuple((x, y[:2]) for x, y in m.items()) for m in matchings(dc, ds))
        many = MATCHINGS if len(dc) + len(ds) <= 200 else 8
        cands = list(itertools.islice(cands, many + 1))
        complete = len(cands) <= many
        cands = list(dict.fromkeys(cands))[:None if complete else PARTIAL]
        cands = [tuple((x[:2], y) for x, y in m) for m in cands]
    else:
        cands, complete = alive
    t0 = time.process_time()
    for i, m in enumerate(cands):
        if time.process_time() - t0 > ob.limit / 3:
            if complete:
                ob.matchings[sig] = (cands[i:], True)      # the refuted ones stay refuted
            return "discard"
        sp = {k[:2]: k for k in ds}
        mm = {}
        for x, y in m:
            if x not in sp or y not in ids or sp[x][2] != ids[y][2]:
                break
            mm[sp[x]] = ids[y]
        else:
            e, Q = under(mm)
            if Q.learn or S.learn:
                return "relearn"
            if e:
                if complete:
                    ob.matchings[sig] = (cands[i:], True)
                return "ok"
    if not complete:
        return "discard"
    ob.matchings[sig] = ([], True)
    return ("violation", witness(S, v, w))


MATCHINGS = 800
PARTIAL = 60           # tried where there are too many to refute them all


def drawish(v):
    """ids of the nodes and of the atoms of a graph whose interpretation may involve a random draw"""
    nodes, atoms, known = set(), set(), {}
    stack = [(v, False)]
    while stack:
        x, done = stack.pop()
        key = id(x)
        if isinstance(x, tuple):
            kids = x
        elif isinstance(x, N):
            kids = (x.atom, x.hi, x.lo)
        elif isinstance(x, (Val, Atom)):
            kids = x.args
        else:
            known[key] = (x, False)
            continue
        if key in known and not done:
            continue
        if not done:
            stack.append((x, True))
            known[key] = (x, False)
            stack.extend((y, False) for y in kids if isinstance(y, (Val, Atom, tuple)))
            continue
        r = any(known.get(id(y), (0, False))[1] for y in kids)
        if isinstance(x, Val) and not isinstance(x, N) and x.op in ("draw", "udist", "loopval", "trip", "early",
                                                                   "looppanic", "phi"):
            r = True
        known[key] = (x, r)
        if r and isinstance(x, Val):
            nodes.add(x.id)
        elif r and isinstance(x, Atom):
            atoms.add(x.id)
    return nodes, atoms


def drawid(k):
    return (k[0], k[1], k[2][1], k[2][2])


def extend(m, dc, ds):
    """complete a matching greedily by range and order"""
    m = dict(m)
    used = set(m.values())
    free = {}
    for c in dc:
        if c not in used:
            free.setdefault(c[2], []).append(c)
    for l in free.values():
        l.reverse()
    for k in ds:
        if k not in m and free.get(k[2]):
            m[k] = free[k[2]].pop()
    return m


def matchings(dc, ds):
    """injections of the smaller set of draws into the larger, equal ranges only; best guesses first"""
    # by site order and rank of the iteration
    def bysite(l):
        sites = []
        for k in l:
            if k[0] not in sites:
                sites.append(k[0])
        return [sorted([k for k in l if k[0] == s], key=lambda k: k[1]) for s in sites]
    a, b = bysite(dc), bysite(ds)
    if len(a) == len(b) and len(a) <= 6:
        for p in itertools.permutations(a):
            m = {}
            for x, y in zip(p, b):
                for c, s in zip(x, y):
                    if c[2] == s[2]:
                        m[s] = c
            yield m
    yield extend({}, dc, ds)
    groups = {}
    for k in dc:
        groups.setdefault(k[2], ([], []))[0].append(k)
    for k in ds:
        groups.setdefault(k[2], ([], []))[1].append(k)
    opts = []
    tot = 1
    for c, s in groups.values():
        if not c or not s:
            continue
        if len(s) <= len(c):
            o = [dict(zip(s, p)) for p in itertools.islice(itertools.permutations(c, len(s)), 900)]
        else:
            o = [dict(zip(p, c)) for p in itertools.islice(itertools.permutations(s, len(c)), 900)]
        opts.append(o)
    for combo in itertools.product(*opts):
        m = {}
        for o in combo:
            m.update(o)
        yield m


def witness(S, v, w, msg=None):
    inputs = []
    for h, x in S.cache.items():
        if isinstance(h, tuple) and h[0] == "h" and len(inputs) < 40:
            if not (isinstance(x, tuple) and x and x[0] == "h"):
                inputs.append("%s = %s" % (evalr.show_key(h[1]), show_val(x)))
    d = {"code": show_val(v)[:1500], "valuation": inputs}
    if w is not None:
        d["required"] = show_val(w)[:1500]
    if msg:
        d["why"] = str(msg)
    return d
