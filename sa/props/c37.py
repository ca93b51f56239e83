"""Memory safety: unsafe operations of the library never meet what they must not, whatever safe code hands in."""
from props.lib import *
from flow import fn_of, callee, closures
import interp

CRATES = ("optlib", "optlib_testfunc")
DECIDED = ("get_unchecked", "get_unchecked_mut", "unwrap_unchecked", "unwrap_err_unchecked", "set_len",
           "unreachable_unchecked", "assert_unchecked")
MADE_UP = ("core::mem::zeroed", "core::mem::uninitialized", "core::intrinsics::zeroed")
THREADS = ("core::marker::Send", "core::marker::Sync")
CELLS = ("core::cell::", "alloc::rc::", "std::cell::", "std::rc::")


def check(c):
    fns = [f for k in CRATES for f in c.prog.local_fns(k)]
    c.functions |= {f.path for f in fns}
    by = {f.id: f for f in fns}
    sites = {}
    none = True
    for f in fns:
        for b in f.blocks:
            if b["t"]["k"] != "call" or b.get("cleanup"):
                continue
            c.ncalls += 1
            g = fn_of(b["t"])
            if not g or not g.get("unsafe") or g["path"].startswith("core::fmt::") or g.get("rid") in by:
                continue
            none = False
            where = "%s (%s)" % (f.path, b["t"]["at"])
            if g["path"] in MADE_UP:
                t = [x for x in g["targs"] if not simple(x)]
                c.fact("values are not made up", where, not t, "%s of a type with invalid bit patterns" % g["path"])
            elif g["name"] in DECIDED:
                sites.setdefault(f.id, []).append((g["name"], where))
            else:
                c.failures.append(("unsafe operation", "%s: calls %s" % (where, g["path"])))
        for u in f.j.get("raw", []):
            none = False
            c.failures.append(("unsafe operation", "%s (%s): %s" % (f.path, u["at"], u["w"])))
    for k in CRATES:
        for i in c.prog.raw[k].get("unsafe", []):
            none = False
            where = "%s for %s (%s)" % (i["trait"].split("::")[-1], i["self"].get("p"), i["at"])
            if i["trait"] in THREADS:
                p = bound(c, i["self"], set())
                c.fact("what crosses threads may", where, p is None, "%s may not be used from another thread" % p)
            else:
                c.failures.append(("unsafe implementation", where))
    if none:
        c.fact("no unsafe operation", "%d functions" % len(fns), True, "")
    if not sites:
        return
    calls = {f.id: targets(f, by) for f in fns}
    interp.Engine.UB = True
    try:
        for f in sorted(fns, key=lambda f: f.path):
            if f.j.get("kind") == "Closure" or not f.j.get("exp") or f.j.get("unsafe") or not reach(f.id, calls) & set(sites):
                continue
            with c.part(f.path):
                entry(c, f)
    finally:
        interp.Engine.UB = False


def entry(c, f):
    args = [c.sym("%s of %s" % (f.locals[i + 1]["n"] or "argument %d" % i, f.path), short(f.local_ty(i + 1)))
            for i in range(f.argc)]
    pre = TRUE
    t = f.local_ty(1) if f.argc else None
    while t and t["k"] == "ref":
        t = t["t"]
    if t and t["k"] == "adt" and t["p"] in c.prog.adts and hidden(c, t["p"]):
        new = [x for x in c.prog.local_fns() if x.name == "new" and x.j.get("self", {}).get("p") == t["p"]
               and x.j.get("trait") is None and x.j.get("exp")]
        r = c.run(f, *args)
        if ub(r) is FALSE:
            c.fact("nothing unsafe happens", c.where(r), True, "")
            return
        if len(new) == 1:
            n = c.run(new[0], *[c.sym("%s given to new" % (new[0].locals[i + 1]["n"] or i),
                                      short(new[0].local_ty(i + 1))) for i in range(new[0].argc)])
            args[0], pre = n.ret, n.facts
        elif related(c, t["p"]):
            c.failures.append((f.path, "the receiver's private state is not known"))
            return
    r = c.run(f, *args, pre=pre)
    c.ob("nothing unsafe happens: %s" % f.path, r, ub(r), FALSE, pre=pre)


def ub(r):
    x = FALSE
    for cond, _, what in r.panics:
        if what.startswith("UB: "):
            x = bor(x, cond)
    return x


def short(t):
    while t["k"] == "ref":
        t = t["t"]
    return t["n"] if t["k"] == "prim" else "?"


def hidden(c, p):
    return any(not fl["exp"] for v in c.prog.adts[p]["v"] for fl in v["f"])


def related(c, p):
    """several containers, whose lengths may depend on each other"""
    return sum(fl["ty"].get("p") == "alloc::vec::Vec" for v in c.prog.adts[p]["v"] for fl in v["f"]) > 1


def simple(t):
    """every bit pattern is a value"""
    if t["k"] == "prim":
        return t["n"] not in ("bool", "char", "str", "never")
    if t["k"] == "tuple":
        return all(simple(x) for x in t["a"])
    if t["k"] == "array":
        return simple(t["t"])
    return t["k"] == "ptr"


def bound(c, t, seen):
    """a part of the type that is bound to one thread"""
    k = t["k"]
    if k == "dyn":
        return None if any(x in str(t) for x in ("Send", "Sync")) else "dyn " + str(t.get("p") or t.get("n") or "trait")
    if k == "ptr":
        return "a raw pointer"
    if k in ("ref", "slice", "array"):
        return bound(c, t["t"], seen)
    if k == "adt":
        if t["p"].startswith(CELLS):
            return t["p"]
        if t["p"] in seen:
            return None
        seen = seen | {t["p"]}
        own = c.prog.adts.get(t["p"])
        for x in [fl["ty"] for v in own["v"] for fl in v["f"]] if own else t.get("a", []):
            p = bound(c, x, seen)
            if p:
                return p
    if k == "tuple":
        for x in t["a"]:
            p = bound(c, x, seen)
            if p:
                return p
    return None


def targets(f, by):
    out = set()
    for b in f.blocks:
        if b["t"]["k"] == "call":
            g = callee(b["t"], by)
            if g:
                out.add(g.id)
            h = fn_of(b["t"])
            out |= {x for x in (closures(h) if h else []) if x in by}
        for s in b["s"]:
            r = s.get("r") or {}
            if r.get("k") == "agg" and r.get("ak") == "closure" and r.get("id") in by:
                out.add(r["id"])
    return out


def reach(i, calls):
    seen, todo = {i}, [i]
    while todo:
        for x in calls.get(todo.pop(), ()):
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return seen
