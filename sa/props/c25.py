from props.lib import *
from props.pipe import Genetic, Swarming, Monitor, GA, PSO, NONE

AGENTS, STATES, OPTS = (I, P), (POP, S), (GA, PSO)
PROT = AGENTS + STATES
MUTABLE = ("RefMut", "MutexGuard", "RwLockWriteGuard", "IterMut", "ChunksMut", "Cell", "RefCell", "Mutex", "RwLock",
           "UnsafeCell", "OnceCell", "Drain", "PeekMut", "OccupiedEntry", "Entry")
SELECT = ("genetic::Selection", "kill")


def parts(t):
    """types a type is made of"""
    k = t["k"]
    if k in ("ref", "ptr", "slice", "array"):
        return [t["t"]]
    return t.get("a", []) if isinstance(t.get("a", []), list) else []


def mentions(t, names):
    return t["k"] == "adt" and t["p"] in names or any(mentions(x, names) for x in parts(t))


def inherits(t):
    """a mutable way in: (target types reachable through it)"""
    k = t["k"]
    if k == "ref" and t["m"] or k == "ptr":
        return [t["t"]] + inherits(t["t"])
    if k == "adt" and (t["p"].split("::")[-1] in MUTABLE or t["p"].split("::")[-1].endswith("Mut")):
        return [x for x in t["a"] if x.get("p") != "alloc::alloc::Global"]
    return [x for y in parts(t) for x in inherits(y)]


def owned(t):
    """protected types in it by value"""
    if t["k"] in ("ref", "ptr", "dyn", "param", "prim"):
        return []
    if t["k"] == "adt" and t["p"] in PROT:
        return [t["p"]]
    if t["k"] == "adt" and ("::Iter" in t["p"] or t["p"].split("::")[-1].endswith("Mut")):
        return []
    return [x for y in parts(t) for x in owned(y)]


def plain(t):
    """an agent or a slice of individuals: nothing more than agents can be reached through it"""
    if t["k"] in ("slice", "array"):
        return plain(t["t"])
    return t["k"] == "adt" and t["p"] == I


def exported(f):
    return f.j.get("exp") and f.crate == "optlib" and "{closure" not in f.path and f.j.get("intrait") is None


def check(c):
    fields(c)
    traits(c)
    for f in sorted((f for f in c.prog.local_fns() if exported(f)), key=lambda f: f.path):
        ins = [f.local_ty(i + 1) for i in range(f.argc)]
        out = f.local_ty(0)
        if not any(mentions(t, PROT + OPTS) for t in ins + [out]):
            continue
        with c.part(f.path):
            where = "%s (%s)" % (f.path, f.span)
            handles(c, f, where, ins, out)
            behaviour(c, f, where, ins, out)


def fields(c):
    for adt in PROT + OPTS:
        a = c.prog.adts.get(adt)
        if a is None:
            c.missing.append("type " + adt)
            continue
        open_ = [fl["n"] for v in a["v"] for fl in v["f"] if fl["exp"] and (adt in PROT or mentions(fl["ty"], PROT))]
        c.fact("no state in public fields of %s" % adt, adt, not open_,
               "code outside the library can write the field %s" % ", ".join(open_))


def traits(c):
    ts = c.prog.raw["optlib"].get("traits", [])
    for t in ts:
        if not t["exp"]:
            continue
        for m in t["m"]:
            bad = [i for i, x in enumerate(m["in"]) for y in inherits(x) if mentions(y, PROT) and not (
                (t["p"], m["n"]) == SELECT and y["k"] == "adt" and y["p"] == POP)]
            c.fact("%s::%s is given the state to read" % (t["p"], m["n"]), "%s::%s (%s)" % (t["p"], m["n"], m["at"]),
                   not bad, "argument %s lets it change the state" % bad)


def handles(c, f, where, ins, out):
    """what a result lets its holder change"""
    mine = [t["t"] for t in ins if t["k"] == "ref" and t["m"] and mentions(t["t"], PROT + OPTS)] + \
           [t for t in ins if owned(t)]
    bad = []
    for t in inherits(out):
        if plain(t):
            continue
        if t["k"] == "adt" and t["p"] in OPTS:
            continue
        if mentions(t, PROT):
            bad.append(t)
        elif any(mentions(x, PROT) for x in mine):
            bad.append(t)
        elif mine and t["k"] in ("prim", "param"):
            bad.append(t)
    c.fact("%s: the result does not open the state" % f.path, where, not bad,
           "hands out mutable access to %s" % ", ".join(str(t.get("p") or t.get("n") or t) for t in bad))


def behaviour(c, f, where, ins, out):
    """what a call leaves behind in agents and states and which agents it makes"""
    changed = [i for i, t in enumerate(ins) if t["k"] == "ref" and t["m"] and t["t"]["k"] == "adt" and
               t["t"]["p"] in PROT + OPTS]
    opaque_ = [i for i, t in enumerate(ins) if i not in changed and any(mentions(x, PROT) and not plain(x)
                                                                        for x in inherits(t))]
    makes = owned(out)
    if f.name in ("find_min", "next_iterations") and f.j.get("trait") in ("Optimizer", "IterativeOptimizer"):
        return
    if not changed and not makes and not opaque_:
        return
    args = [c.sym("%s of %s" % (f.locals[i + 1]["n"] or "argument %d" % i, f.path), t["n"] if t["k"] == "prim" else "?")
            for i, t in enumerate(ins)]
    r = c.run(f, *args)
    vals, kinds = [], []
    for i, t in enumerate(ins):
        vals.append(args[i])
        kinds.append(("before", i, t))
    for i in changed + opaque_:
        if r.arg(i + 1) is not None:
            vals.append(r.arg(i + 1))
            kinds.append(("after", i, ins[i]))
    if makes and r.ret is not None:
        vals.append(r.ret)
        kinds.append(("made", None, out))
    code = agg("tuple", 0, tuple(vals))
    if not makes and all(r.arg(i + 1) is args[i] for i in changed + opaque_ if r.arg(i + 1) is not None):
        c.fact("%s: leaves the state as it is" % f.path, where, True, "")
        return
    algs = {I: Genetic(c), POP: Genetic(c), GA: Genetic(c), P: Swarming(c), S: Swarming(c), PSO: Swarming(c)}
    pre = bnot(r.may_panic())
    c.ob("%s: agents are genuine, lists and records kept" % f.path, r, code, None, judge=genuine(c, kinds, algs),
         pre=pre, proofs=proofs(c, kinds, vals, algs, pre))


def proofs(c, kinds, vals, algs, pre):
    """equations under which nothing was forged; where they do not hold, the judge looks at the values"""
    out = []

    def eq(name, a, b):
        out.append((name, a, b, pre))

    def kept(adt, a, b):
        if adt in OPTS:
            eq("state", algs[adt].state(a), algs[adt].state(b))
        elif adt == I:
            eq("point and value", c.put(c.whole(a, I), I, "alive", UNIT), c.put(c.whole(b, I), I, "alive", UNIT))
            eq("nobody revived", band(alive(c, a), bnot(alive(c, b))), FALSE)
        elif adt == POP:
            eq("records", c.put(a, POP, "individuals", UNIT), c.put(b, POP, "individuals", UNIT))
            x, y = c.get(a, POP, "individuals"), c.get(b, POP, "individuals")
            eq("number", length(x), length(y))
            k = fresh_k()
            kept(I, idx(x, k), idx(y, k))
        else:
            eq("all", c.whole(a, adt), c.whole(b, adt))
    given = {t["t"]["p"] if t["k"] == "ref" else t.get("p"): x for (k, i, t), x in zip(kinds, vals)
             if k == "before" and (t["k"] != "ref" or t["t"]["k"] == "adt")}
    for (k, i, t), x in zip(kinds, vals):
        if k == "after" and t["k"] == "ref" and t["t"].get("p") in PROT + OPTS:
            kept(t["t"]["p"], x, vals[i])
        elif k == "made" and t.get("p") in AGENTS and t["p"] in given:
            kept(t["p"], x, given[t["p"]])
        elif k == "made" and t.get("p") in STATES:
            A = algs[t["p"]]
            eq("no agents", c.get(x, A.sadt, A.agents), NIL)
            eq("no best", c.get(x, A.sadt, A.best), NONE)
            eq("no worst", c.get(x, A.sadt, A.worst), NONE)
        elif k != "before":
            eq("not recognised", TRUE, FALSE)
    return out


def genuine(c, kinds, algs):
    def judge(S_, v):
        Ms = {k: Monitor(S_, a) for k, a in algs.items()}

        def collect(x, t, into):
            """agents in a value of a type"""
            if t["k"] in ("ref", "slice", "array"):
                if t["k"] == "ref":
                    return collect(x, t["t"], into)
                for y in S_.elems(x):
                    collect(y, t["t"], into)
                return
            if t["k"] == "tuple":
                for i, y in enumerate(t["a"]):
                    if mentions(y, PROT + OPTS):
                        collect(S_.fieldof(x, i), y, into)
                return
            if t["k"] != "adt":
                return
            p = t["p"]
            if p in AGENTS:
                into.append((p, x))
            elif p in STATES:
                M = Ms[p]
                a = I if p == POP else P
                for y in M.agents(x):
                    into.append((a, y))
                for w in ("best", "worst"):
                    b = M.record(x, w)
                    if b is not None:
                        into.append((a, b))
            elif p in OPTS:
                collect(Ms[p].state(x), {"k": "adt", "p": POP if p == GA else S}, into)
            elif mentions(t, PROT + OPTS):
                n = p.split("::")[-1]
                if n == "Option":
                    if S_.variant(x, 1) == 1:
                        collect(S_.vfieldof(x, 1, 0), t["a"][0], into)
                elif n in ("Vec", "VecDeque"):
                    for y in S_.elems(x):
                        collect(y, t["a"][0], into)
                elif n == "Box":
                    collect(x, t["a"][0], into)

        def same_agent(p, x, y):
            M = Ms[p]
            if p == I:
                if not M.eq(M.point(x), M.point(y)) or not M.eq(M.value(x), M.value(y)):
                    return False
                return not M.alive(x) or M.alive(y)
            return M.eq(x, y)
        old, goals = [], []
        for (k, i, t), x in zip(kinds, v[3]):
            if k == "before":
                collect(x, t, old)
        for (k, i, t), x in zip(kinds, v[3]):
            if k == "before":
                continue
            new = []
            collect(x, t, new)
            for p, y in new:
                if not any(q == p and same_agent(p, y, z) for q, z in old):
                    return "%s an agent that is not one of those there were (point %s, value %s)" % (
                        "makes" if k == "made" else "leaves", M_show(S_, Ms[p], y), show(S_, Ms[p].of(y, Ms[p].alg.value)))
            if k == "after":
                b = v[3][i]
                tt = t["t"] if t["k"] == "ref" else t
                p = tt.get("p")
                if p in OPTS:
                    x, b = Ms[p].state(x), Ms[p].state(b)
                    p = POP if p == GA else S
                if p not in STATES:
                    continue
                M = Ms[p]
                if M.iteration(x) != M.iteration(b):
                    return "changes the iteration number from %d to %d" % (M.iteration(b), M.iteration(x))
                for w in ("best", "worst"):
                    m, n = M.record(x, w), M.record(b, w)
                    if (m is None) != (n is None) or m is not None and not M.eq(m, n):
                        return "changes the %s record" % w
                if len(M.agents(x)) != len(M.agents(b)):
                    return "changes the number of agents from %d to %d" % (len(M.agents(b)), len(M.agents(x)))
        return None
    return judge


def show(S_, x):
    from evalr import show_val
    return show_val(x)[:60]


def M_show(S_, M, y):
    return show(S_, M.point(y))
