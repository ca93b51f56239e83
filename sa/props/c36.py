"""Bounded work: loops, recursion and iterator chains of the library end, whatever values come up."""
from props.lib import *
from flow import *

CRATES = ("optlib", "optlib_testfunc")
STOP = "tools::stopchecker::StopChecker"
ITER = "core::iter::traits::iterator::Iterator"
DRAWS = ("rand::distributions::Distribution", "rand::Rng", "rand::rng::Rng", "rand_core::RngCore",
         "rand::distributions::uniform::UniformSampler")
CELLS = ("core::cell::", "core::sync::atomic::", "std::sync::", "std::thread::local::")
SHRINK = ("pop", "pop_front", "pop_back", "remove", "swap_remove", "truncate", "clear", "pop_first", "pop_last", "split_off",
          "take", "drain")
GROW = ("push", "push_front", "push_back", "insert")
LIMIT = ("next", "next_back")
# iterators: what they do to the sources in their type arguments
SAME = ("Map", "Enumerate", "Rev", "Skip", "Cloned", "Copied", "Peekable", "Fuse", "Inspect", "StepBy", "Intersperse",
        "Flatten1")
PICKY = ("Filter", "FilterMap", "SkipWhile", "Flatten", "FlatMap")
UNTIL = ("TakeWhile", "MapWhile", "Scan")
ENDLESS = ("core::iter::sources::repeat::Repeat", "core::iter::sources::repeat_with::RepeatWith",
           "core::iter::adapters::cycle::Cycle", "rand::distributions::DistIter",
           "rand::distributions::distribution::DistIter")
FINITE = ("core::slice::iter::", "alloc::vec::into_iter::", "alloc::vec::drain::", "core::ops::range::Range",
          "core::ops::range::RangeInclusive", "core::array::iter::", "core::option::", "core::result::",
          "alloc::vec::Vec", "core::str::", "alloc::string::", "core::iter::sources::once::",
          "core::iter::sources::empty::", "core::iter::sources::repeat_n::", "alloc::collections::", "std::collections::",
          "core::iter::sources::once_with::", "core::char::")
ADAPT = ("map", "enumerate", "rev", "skip", "cloned", "copied", "peekable", "fuse", "inspect", "step_by", "filter",
         "filter_map", "skip_while", "take_while", "map_while", "scan", "flatten", "flat_map", "take", "zip", "chain", "cycle",
         "by_ref", "into_iter", "next", "next_back", "size_hint", "nth", "peek", "len", "clone")


def check(c):
    fns = [f for k in CRATES for f in c.prog.local_fns(k)]
    c.functions |= {f.path for f in fns}
    for f in fns:
        f.cfg()
    a = Analysis(c, fns)
    n = bad = 0
    for f in fns:
        fl = Flow(f)
        c.loops += len(f.loops)
        if f.irreducible:
            c.failures.append(("loops end", "%s: irreducible control flow" % f.path))
        for h in sorted(f.loops):
            n += 1
            v, why = a.loop(f, fl, h)
            where = "%s (%s)" % (f.path, f.blocks[h]["t"]["at"])
            if v == "bounded":
                c.fact("loop ends after a bounded number of rounds: " + why, where, True, "")
            elif v == "unbounded":
                c.fact("loop ends after a bounded number of rounds", where, False, why)
            else:
                c.failures.append(("loop ends after a bounded number of rounds", "%s: %s" % (where, why)))
        for t in (f.blocks[b]["t"] for b in f.order):
            if t["k"] != "call":
                continue
            c.ncalls += 1
            x = consumed(t)
            if x in ("endless", "picky", "until"):
                bad += 1
                c.fact("iterators that are used up are finite", "%s (%s)" % (f.path, t["at"]), False,
                       "%s on an iterator that %s" % (fn_of(t)["name"], "never ends" if x == "endless" else
                                                      "ends only when the values in it say so"))
    if not bad:
        c.fact("iterators that are used up are finite", "%d functions" % len(fns), True, "")
    rec(c, a, fns)


# ---------------------------------------------------------------- iterators
def kind(t):
    """finite, endless (and delivering), until (a value ends it), picky (may search forever), None: unknown"""
    k = t["k"]
    if k == "ref":
        return kind(t["t"]) if t["t"]["k"] not in ("slice", "array") else "finite"
    if k in ("array", "slice"):
        return "finite"
    if k != "adt":
        return None
    p, last = t["p"], t["p"].split("::")[-1]
    if p == "core::ops::range::RangeFrom":
        return "count"                                # endless, but an item says how far it has got
    if p in ENDLESS:
        return "endless"
    if p.startswith("core::iter::adapters::"):
        s = [kind(x) for x in t["a"]]
        if last == "Take":
            return "finite" if s[0] in ("finite", "endless", "until", "count") else s[0]
        if last == "Zip":
            if "picky" in s[:2]:
                return "picky"
            return "finite" if "finite" in s[:2] else "count" if "count" in s[:2] else "until" if "until" in s[:2] and None not in s[:2] else \
                "endless" if s[:2] == ["endless"] * 2 else None
        if last == "Chain":
            return s[0] if s[0] == s[1] else "picky" if "picky" in s else "until" if "until" in s and "endless" not in s \
                and None not in s else "endless" if None not in s else None
        if last == "Enumerate" and s[0] == "endless":
            return "count"
        if last in SAME:
            return s[0]
        if last in PICKY:
            inner = None
            if last in ("FlatMap", "Flatten"):
                inner = [x for x in s[1:2] if x]
            if s[0] == "finite":
                return "finite" if not inner or inner[0] == "finite" else inner[0]
            return "picky" if s[0] in ("endless", "picky", "until") else None
        if last in UNTIL:
            return s[0] if s[0] in ("finite", "picky") else "until" if s[0] in ("endless", "until") else None
        return None
    if p.startswith(FINITE):
        return "finite"
    return None


def consumed(t):
    g = fn_of(t)
    if not g:
        return None
    own = None
    if g.get("trait") == ITER and g["name"] not in ADAPT:
        own = g["targs"][0]
    elif g.get("trait", "").startswith("core::iter::") and g["name"] in ("next", "next_back", "nth", "peek"):
        return "picky" if kind(g["targs"][0]) == "picky" else None
    elif g["name"] in ("from_iter", "extend", "sum", "product") and len(g.get("targs", [])) > 1:
        own = g["targs"][-1]
    return kind(own) if own else None


# ---------------------------------------------------------------- loops
class Analysis(object):
    def __init__(self, c, fns):
        self.c, self.fns = c, fns
        self.by = {f.id: f for f in fns}
        self.still = {}

    def plugin(self, t):
        """a call whose outcome the library cannot know"""
        g = fn_of(t)
        if g is None:
            return "closure"
        tr = g.get("trait") or ""
        if tr.startswith(DRAWS):
            return "draw"
        if callee(t, self.by) is None and tr and tr in self.c.prog.raw["optlib"].get("traits_local", self.traits()):
            return "plug-in"
        return None

    def traits(self):
        out = set()
        for x in self.c.prog.raw["optlib"]["traits"]:
            out.add(x["p"] if isinstance(x, dict) else x)
        return out

    def idle(self, f, seen=()):
        """a call changes nothing but generators and plug-ins"""
        if f.id in self.still:
            return self.still[f.id]
        if f.id in seen:
            return True
        fl = Flow(f)
        ok = True
        for i in f.order:
            b = f.blocks[i]
            for s in b["s"]:
                if "setd" in s:
                    ok = False
                elif "*" in s["d"]["p"] and outer(fl, fl.root(s["d"]["l"])):
                    ok = False
            t = b["t"]
            if t["k"] == "call" and self.touches(t, fl, seen + (f.id,)):
                if any(outer(fl, r) for r, _ in fl.mutated(t)) or path_of(t).startswith(CELLS):
                    ok = False
        if not seen:
            self.still[f.id] = ok
        return ok

    def touches(self, t, fl, seen=()):
        """a call may change something besides generators and plug-ins"""
        if self.plugin(t) in ("draw", "plug-in") or (fn_of(t) or {}).get("name") in ("index_mut", "deref_mut"):
            return False
        ms = [(r, l) for r, l in fl.mutated(t) if not generator(fl.ty(l))]
        if not ms and not path_of(t).startswith(CELLS):
            return False
        f = callee(t, self.by)
        return not (f and self.idle(f, seen))

    def loop(self, f, fl, h):
        body = f.loops[h]
        live = f.live[h]
        conds, exits = set(), []
        for b in body:
            t = f.blocks[b]["t"]
            if t["k"] == "switch":
                conds |= set(operands(t["o"]))
                if any(x not in body for x in f.succ[b]) or any(x[1] not in body for x in t["ts"]):
                    exits.append(b)
        cares = fl.slice_of(conds, body)
        carried = {l for l in cares if l in live}
        # blocks in which something the way out depends on may get on
        steps, sure, external = set(), {}, set()
        for b in body:
            for s in f.blocks[b]["s"]:
                if "setd" in s:
                    steps.add(b)
                    continue
                l = fl.root(s["d"]["l"]) if "*" in s["d"]["p"] else s["d"]["l"]
                if l not in carried:
                    continue
                w = self.assigned(f, fl, b, s, l, body, carried)
                if w:
                    steps.add(b)
                    if w != "?":
                        sure.setdefault((w, l), set()).add(b)
            t = f.blocks[b]["t"]
            if t["k"] != "call":
                continue
            g = fn_of(t)
            if g and g["name"] == "can_stop" and f.j.get("trait") != STOP and t["d"]["l"] in cares:
                external.add(b)
                continue
            if t["d"]["l"] in carried and self.plugin(t) is None and not self.random(fl, t, body):
                steps.add(b)
            roots = [r for r, _ in fl.mutated(t) if r in carried]
            if not roots and not (path_of(t).startswith(CELLS) and carried & {fl.root(x) for x in operands(t["args"])}):
                continue
            if g and g["name"] in LIMIT and g.get("trait", "").startswith("core::iter::"):
                k = kind(g["targs"][0])
                if k in ("endless", "picky", "until"):
                    continue
                steps.add(b)
                if k == "finite" and self.leaves(f, b, body, "0"):
                    sure.setdefault(("next", roots[0]), set()).add(b)
            elif g and g["name"] in ("pop", "pop_front", "pop_back") and not callee(t, self.by):
                steps.add(b)
                if self.leaves(f, b, body, "0"):
                    sure.setdefault(("pop", roots[0]), set()).add(b)
            elif self.touches(t, fl):
                steps.add(b)
                if g and not callee(t, self.by) and g["path"].startswith("alloc::vec::Vec"):
                    if g["name"] in GROW:
                        sure.setdefault(("grow", roots[0]), set()).add(b)
                    elif g["name"] in ("remove", "swap_remove"):
                        sure.setdefault(("shrink", roots[0]), set()).add(b)
        for (w, l), bs in sorted(sure.items()):
            others = {b for (v, m), x in sure.items() if m == l and v != w for b in x}
            changed = self.changers(f, fl, l, body)
            if w == "next" and not self.cycle(f, h, body - bs) and changed <= bs:
                return "bounded", "a finite iterator is advanced in every round"
            if w == "pop" and not self.cycle(f, h, body - bs) and changed <= bs:
                return "bounded", "an element is taken away in every round"
            if w in ("up", "down") and not others and changed <= bs and not self.cycle(f, h, body - bs):
                e = {b for b in exits if self.compares(f, fl, b, l, w, body, live)}
                if e and not self.cycle(f, h, body - e):
                    return "bounded", "a counter moves towards its bound in every round"
        if external and not self.cycle(f, h, body - external):
            return "bounded", "the stop criterion is asked in every round"
        cyc = self.cycle(f, h, body - steps - external)
        if cyc:
            at = sorted({int(f.blocks[b]["t"]["at"].rsplit(":", 1)[1]) for b in cyc if "at" in f.blocks[b]["t"]})
            return "unbounded", "a round over lines %s brings no counter, iterator or container nearer to its end: the " \
                                "loop goes on as long as the values in it say so" % ", ".join(map(str, at))
        w = self.combined(f, fl, h, body, sure, exits, live)
        return ("bounded", w) if w else ("?", "no measure found")

    def combined(self, f, fl, h, body, sure, exits, live):
        """a counter below the length of a vector that shrinks, or a length that grows to a bound"""
        for (w, v), bs in sure.items():
            if w == "grow" and self.changers(f, fl, v, body) <= bs and not self.cycle(f, h, body - bs):
                return None if not any(self.lengths(f, fl, b, v, body) for b in exits) else "a vector grows to its size"
            if w == "shrink" and self.changers(f, fl, v, body) <= bs:
                for (w2, i), b2 in sure.items():
                    if w2 == "up" and self.changers(f, fl, i, body) <= b2 and not self.cycle(f, h, body - bs - b2) \
                            and any(self.lengths(f, fl, b, v, body) for b in exits):
                        return "a counter and a shrinking vector meet"
        return None

    def lengths(self, f, fl, b, v, body):
        """the way out at b compares the length of v"""
        cares = fl.slice_of(set(operands(f.blocks[b]["t"]["o"])), body)
        for x in body:
            t = f.blocks[x]["t"]
            if t["k"] == "call" and t["d"]["l"] in cares and (fn_of(t) or {}).get("name") == "len":
                if any(fl.root(l) == v for l in operands(t["args"])):
                    return True
        return False

    def changers(self, f, fl, l, body):
        """blocks of the loop that may change a local"""
        out = set()
        for b in body:
            for s in f.blocks[b]["s"]:
                if "setd" in s:
                    out.add(b)
                elif (fl.root(s["d"]["l"]) if "*" in s["d"]["p"] else s["d"]["l"]) == l:
                    out.add(b)
            t = f.blocks[b]["t"]
            if t["k"] == "call":
                if t["d"]["l"] == l or any(r == l for r, _ in fl.mutated(t)):
                    out.add(b)
        return out

    def assigned(self, f, fl, b, s, l, body, carried):
        """does this assignment get on: up/down for counters, '?' for what might, None for values"""
        t = fl.ty(l)
        place = s["d"].get("t")
        prim = t["n"] if t["k"] == "prim" else place
        r = s["r"]
        if prim in FLOATS or (t["k"] == "param" and not s["d"]["p"]) or (place or "").startswith("T:"):
            return None
        if prim in INTS and not s["d"]["p"]:
            w = self.step(fl, r, l, body)
            if w:
                return w
        feeds = fl.slice_of(set(operands(r)), body)
        if l in feeds and l in carried:
            return "?"
        if r["k"] == "ref":
            return None
        return None if self.values(f, fl, feeds, body) else "?"

    def random(self, fl, t, body):
        feeds = fl.slice_of(set(operands(t["args"])), body)
        return t["d"]["l"] not in feeds and self.values(fl.f, fl, feeds, body)

    def values(self, f, fl, feeds, body):
        """draws or plug-in results feed these locals"""
        for b in body:
            t = f.blocks[b]["t"]
            if t["k"] == "call" and t["d"]["l"] in feeds:
                if self.plugin(t) in ("draw", "plug-in"):
                    return True
                g = callee(t, self.by)
                if g and self.draws(g):
                    return True
        return any(fl.ty(l).get("n") in FLOATS for l in feeds)

    def draws(self, f, seen=()):
        if f.id in seen:
            return False
        for b in f.order:
            t = f.blocks[b]["t"]
            if t["k"] == "call":
                if self.plugin(t) == "draw":
                    return True
                g = callee(t, self.by)
                if g and self.draws(g, seen + (f.id,)):
                    return True
        return False

    def step(self, fl, r, l, body):
        """x = x + c or x = x - c, also by way of the checked tuple"""
        if r["k"] == "use" and "p" in r["o"]:
            src = r["o"]["p"]
            ds = fl.defs.get(src["l"], [])
            if len(ds) == 1 and ds[0][1] is not None:
                r = ds[0][1]["r"]
            elif len(ds) == 1 and ds[0][2] is not None:
                return None
        if r["k"] == "bin" and r["op"] in STEPS:
            a, b = r["a"], r["b"]
            k = constant(b)
            if r["op"].startswith("Add") and not k:
                a, b, k = b, a, constant(a)
            if k and k.get("bits") not in (None, "0") and "p" in a and list(operands(a)) and not a["p"]["p"]:
                x = a["p"]["l"]
                if x == l or self.copy(fl, x) == l:
                    n = int(k["bits"])
                    if n < 1 << 8 * k.get("size", 8) - 1:
                        return "up" if r["op"].startswith("Add") else "down"
        return None

    def copy(self, fl, x):
        ds = fl.defs.get(x, [])
        if len(ds) == 1 and ds[0][1] is not None and ds[0][1]["r"]["k"] == "use" and "p" in ds[0][1]["r"]["o"]:
            p = ds[0][1]["r"]["o"]["p"]
            if not p["p"]:
                return self.copy(fl, p["l"])
        return x

    def compares(self, f, fl, b, l, w, body, live):
        """the switch at b leaves the loop when the counter passes a bound that stays"""
        t = f.blocks[b]["t"]
        ls = list(operands(t["o"]))
        ds = fl.defs.get(ls[0], []) if len(ls) == 1 else []
        inside = lambda x: x in body
        if self.copy(fl, ls[0]) == l:                 # match counter { 0 => break, _ => .. }
            return w == "down" and any(v == "0" and not inside(x) for v, x in t["ts"])
        if len(ds) != 1 or ds[0][1] is None or ds[0][1]["r"]["k"] != "bin":
            return False
        r = ds[0][1]["r"]
        a = self.copy(fl, (list(operands(r["a"])) or [None])[0])
        o = self.copy(fl, (list(operands(r["b"])) or [None])[0])
        op = r["op"]
        if o == l:
            a, o = o, a
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if a != l or (o is not None and not self.fixed(f, fl, o, body)):
            return False
        false = next((x for v, x in t["ts"] if v == "0"), None)
        stay = inside(t["ow"])                        # the loop goes on when the comparison is true
        if false is None or stay == inside(false):
            return False
        if not stay:
            op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}.get(op)
        return op in (("Lt", "Le", "Ne") if w == "up" else ("Gt", "Ge", "Ne"))

    def fixed(self, f, fl, o, body):
        """the value is the same in every round: nothing it is computed from changes in the loop"""
        for x in fl.slice_of({o}, body):
            for b in body:
                for s in f.blocks[b]["s"]:
                    if "setd" not in s and "*" in s["d"]["p"] and fl.root(s["d"]["l"]) == x:
                        return False
                t = f.blocks[b]["t"]
                if t["k"] == "call" and any(r == x for r, _ in fl.mutated(t)):
                    if self.touches(t, fl):
                        return False
            if x in f.live[min(body, key=lambda y: f.rpo[y])]:
                for b in body:
                    if any("setd" not in s and s["d"]["l"] == x and "*" not in s["d"]["p"] for s in f.blocks[b]["s"]):
                        return False
        return True

    def leaves(self, f, b, body, tag):
        """the loop is left when the call at b delivered None"""
        t = f.blocks[b]["t"]
        d, x, n = t["d"]["l"], t["t"], 0
        while x is not None and n < 6:
            n += 1
            bl = f.blocks[x]
            tt = bl["t"]
            if tt["k"] == "switch":
                ls = set(operands(tt["o"]))
                for s in bl["s"]:
                    if "setd" not in s and s["r"]["k"] == "discr" and s["r"]["p"]["l"] == d and s["d"]["l"] in ls:
                        none = next((y for v, y in tt["ts"] if v == tag), tt["ow"])
                        return self.out(f, none, body)
                return False
            if tt["k"] != "goto":
                return False
            x = tt["t"]
        return False

    def out(self, f, b, body):
        """no way back into the loop's head from here without leaving it"""
        seen, st = set(), [b]
        h = min(body, key=lambda y: f.rpo[y])
        while st:
            x = st.pop()
            if x == h:
                return False
            if x in body and x not in seen:
                seen.add(x)
                st += f.succ[x]
        return True

    def cycle(self, f, h, body):
        """blocks on some cycle through the loop's head"""
        if h not in body:
            return None
        fw, st = set(), [h]
        back = False
        while st:
            x = st.pop()
            for y in f.succ[x]:
                if y == h:
                    back = True
                if y in body and y not in fw:
                    fw.add(y)
                    st.append(y)
        if not back:
            return None
        bw, st = {h}, [h]
        while st:
            x = st.pop()
            for y in f.pred[x]:
                if y in fw and y not in bw:
                    bw.add(y)
                    st.append(y)
        return bw & (fw | {h})


def generator(t):
    """a random generator"""
    while t["k"] == "ref":
        t = t["t"]
    return t.get("p", "").startswith(("rand::rngs", "rand_core::", "rand_chacha::", "rand_hc::"))


def outer(fl, l):
    """what a local leads to exists outside the function"""
    return l <= fl.f.argc and fl.ty(l)["k"] in ("ref", "ptr", "closure") or fl.f.name == "{closure}" and l == 1


# ---------------------------------------------------------------- recursion
def rec(c, a, fns):
    calls = {}
    for f in fns:
        out = calls.setdefault(f.id, [])
        for b in f.order:
            t = f.blocks[b]["t"]
            if t["k"] == "call":
                g = callee(t, a.by)
                if g:
                    out.append((g.id, b))
                for i in closures(fn_of(t) or {}):
                    if i in a.by:
                        out.append((i, b))
    bad = False
    for f in fns:
        seen, st = set(), [i for i, _ in calls[f.id]]
        while st:
            i = st.pop()
            if i not in seen:
                seen.add(i)
                st += [j for j, _ in calls.get(i, ())]
        if f.id not in seen:
            continue
        bad = True
        where = "%s (%s)" % (f.path, f.span)
        own = [b for i, b in calls[f.id] if i == f.id]
        fl = Flow(f)
        if own and all(same_args(f, fl, f.blocks[b]["t"]) for b in own):
            c.fact("recursion comes to an end", where, False, "calls itself with the arguments it got")
        else:
            c.failures.append(("recursion comes to an end", where))
    if not bad:
        c.fact("no recursion", "%d functions" % len(fns), True, "")


def same_args(f, fl, t):
    for n, o in enumerate(t["args"], 1):
        ls = list(operands(o))
        if len(ls) != 1 or fl.root(ls[0]) != n and copy_of(fl, ls[0]) != n:
            return False
    return True


def copy_of(fl, x):
    ds = fl.defs.get(x, [])
    if len(ds) == 1 and ds[0][1] is not None and ds[0][1]["r"]["k"] == "use":
        ls = list(operands(ds[0][1]["r"]["o"]))
        if len(ls) == 1:
            return copy_of(fl, ls[0])
    return x
