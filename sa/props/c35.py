"""Fresh randomness: generators are seeded from entropy, not copied, and nothing stands in for them."""
from props.lib import *
from flow import *

CRATES = ("optlib", "optlib_testfunc")
SEEDS = ("seed_from_u64", "from_seed", "from_rng")
DRAWS = ("rand::distributions::Distribution", "rand::Rng", "rand::rng::Rng", "rand_core::RngCore",
         "rand::distributions::uniform::UniformSampler")
SOURCES = ("rand::rngs::thread::thread_rng", "rand::random", "rand::rngs::adapter::", "getrandom::", "rand::rngs::entropy")


def check(c):
    fns = [f for k in CRATES for f in c.prog.local_fns(k)]
    c.functions |= {f.path for f in fns}
    a = Sources(c, fns)
    n = draws = 0
    for f in fns:
        own = f.j.get("trait") == "rand_core::RngCore"
        if own and f.name in ("next_u32", "next_u64") and not a.random(f):
            c.fact("generators draw from entropy", "%s (%s)" % (f.path, f.span), False,
                   "makes up numbers instead of asking a generator seeded from entropy")
        for b in f.blocks:
            t = b["t"]
            if t["k"] != "call" or b.get("cleanup"):
                continue
            c.ncalls += 1
            g = fn_of(t)
            if not g:
                continue
            where = "%s (%s)" % (f.path, t["at"])
            draws += (g.get("trait") or "").startswith(DRAWS)
            if "rngs::mock" in g["path"] or any("rngs::mock" in str(x) for x in g.get("targs", [])[:1]):
                c.fact("generators draw from entropy", where, False, "uses a generator made for tests")
            elif g["name"] in SEEDS and (g.get("trait") or "").endswith("::SeedableRng"):
                n += 1
                why = a.origin(f, t["args"][0], set())
                if why == "?":
                    c.failures.append(("seeds come from entropy", where + ": origin of the seed unknown"))
                else:
                    c.fact("seeds come from entropy or the caller", where, why is None, why)
            elif g.get("trait") == "core::clone::Clone" and g["name"] == "clone" and repeats(c, g["targs"][0]):
                c.fact("generators are not copied", where, False, "copies a generator: both repeat the same numbers")
    c.fact("all draws come from fresh generators", "%d functions, %d draws, %d seeds" % (len(fns), draws, n), True, "")


def repeats(c, t):
    """a generator whose copy delivers the same numbers"""
    p = t.get("p", "") if t["k"] == "adt" else ""
    return (p.startswith("rand::rngs::") and not p.endswith(("ThreadRng", "OsRng"))) or \
        p.startswith(("rand_chacha::", "rand_hc::", "rand_pcg::", "rand_xoshiro", "rand_xorshift"))


class Sources(object):
    def __init__(self, c, fns):
        self.c, self.fns = c, fns
        self.by = {f.id: f for f in fns}
        self.flows, self.rnd = {}, {}

    def flow(self, f):
        if f.id not in self.flows:
            self.flows[f.id] = Flow(f)
        return self.flows[f.id]

    def random(self, f):
        """the function draws or makes generators from entropy"""
        if f.id in self.rnd:
            return self.rnd[f.id]
        self.rnd[f.id] = False
        self.rnd[f.id] = any(b["t"]["k"] == "call" and self.draws(b["t"]) for b in f.blocks)
        return self.rnd[f.id]

    def draws(self, t):
        g = fn_of(t)
        if not g:
            return False
        if (g.get("trait") or "").startswith(DRAWS) or g["path"].startswith(SOURCES) or g["name"] in (
                "from_entropy", "thread_rng"):
            return True
        h = callee(t, self.by)
        if h and self.random(h):
            return True
        return any(self.random(self.by[x]) for x in closures(g) if x in self.by)

    def origin(self, f, o, seen):
        """None: entropy, or what a caller outside decides; '?': unknown; else what is wrong"""
        if constant(o):
            return "the seed is a constant"
        fl = self.flow(f)
        feeds = fl.slice_of(set(operands(o)), set(f.order))
        if self.drawn(f, fl, feeds):
            return None
        ps = sorted(l for l in feeds if 1 <= l <= f.argc)
        if f.j.get("kind") == "Closure" and ps:
            return "?"
        if not ps:
            return "the seed is computed from nothing that is drawn"
        if any(fl.ty(l)["k"] == "ref" or fl.ty(l)["k"] == "adt" and fl.ty(l)["p"] in self.c.prog.adts for l in ps):
            return self.state(f, fl, feeds, ps, seen)
        if f.id in seen:
            return None
        for h in self.fns:
            for b in h.blocks:
                t = b["t"]
                if t["k"] == "call" and callee(t, self.by) is f:
                    for l in ps:
                        w = self.origin(h, t["args"][l - 1], seen | {f.id})
                        if w:
                            return w if w == "?" else "%s (given by %s)" % (w, h.path)
        return None

    def big(self, t, x):
        """a field that holds more than a number"""
        t = t["t"] if t["k"] == "ref" else t
        a = self.c.prog.adts.get(t.get("p"))
        return bool(a) and len(a["v"]) == 1 and a["v"][0]["f"][x[0]]["ty"].get("k") != "prim"

    def into(self, f, d, adt, i):
        """the place is field i of a value of the type"""
        fs, t = fields(d["p"]), self.flow(f).ty(d["l"])
        for x in fs[:-1]:
            t = t["t"] if t["k"] == "ref" else t
            a = self.c.prog.adts.get(t.get("p"))
            if not a or len(a["v"]) != 1:
                return False
            t = a["v"][0]["f"][x]["ty"]
        t = t["t"] if t["k"] == "ref" else t
        return fs[-1:] == (i,) and t.get("p") == adt

    def outside(self, f, o, params=True):
        """something drawn, or something a caller brings along"""
        fl = self.flow(f)
        feeds = fl.slice_of(set(operands(o)), set(f.order))
        return self.drawn(f, fl, feeds) or params and any(1 <= l <= f.argc for l in feeds)

    def drawn(self, f, fl, feeds):
        for b in f.order:
            t = f.blocks[b]["t"]
            if t["k"] == "call" and (t["d"]["l"] in feeds or any(r in feeds for r, _ in fl.mutated(t))) and self.draws(t):
                return True
        return False

    def asked(self, f, fl, feeds, seen):
        """the seed is what a method says about the state: a count, or a field"""
        out = set()
        for b in f.order:
            t = f.blocks[b]["t"]
            if t["k"] != "call" or t["d"]["l"] not in feeds or fl.ty(t["d"]["l"]).get("n") not in INTS:
                continue
            h, g = callee(t, self.by), fn_of(t)
            if h is not None and h.id not in seen:
                out.add(self.origin(h, {"p": {"l": 0, "p": []}}, seen | {f.id, h.id}))
            else:
                out.add("the seed is a number of elements" if g and g["name"] in ("len", "count", "capacity") else "?")
        return out.pop() if len(out) == 1 else "?"

    def state(self, f, fl, feeds, ps, seen):
        """a seed kept in a field: nobody outside can set it and nothing drawn is ever stored in it"""
        used = set()
        for b in f.order:
            for s in f.blocks[b]["s"]:
                if "setd" in s or s["d"]["l"] not in feeds:
                    continue
                for l, p in places(s["r"]):
                    if l in ps and fields(p):
                        used.add((l, fields(p)))
        if not used or all(self.big(fl.ty(l), x) for l, x in used):
            return self.asked(f, fl, feeds, seen)
        if any(len(x) != 1 for _, x in used):
            return "?"
        for l, (i,) in used:
            t = fl.ty(l)
            t = t["t"] if t["k"] == "ref" else t
            if t["k"] != "adt" or t["p"] not in self.c.prog.adts:
                return "?"
            v = self.c.prog.adts[t["p"]]["v"]
            if len(v) != 1 or v[0]["f"][i]["ty"].get("k") != "prim":
                return "?"
            for h in self.fns:
                for b in h.blocks:
                    for s in b["s"]:
                        r = s.get("r") or {}
                        if r.get("k") == "agg" and r.get("ak") == "adt" and r.get("p", r.get("adt")) == t["p"]:
                            if not constant(r["ops"][i]) and self.outside(h, r["ops"][i]):
                                return None
                        elif "d" in s and self.into(h, s["d"], t["p"], i) and self.outside(h, r, False):
                            return None
        return "the seed is kept in a field which nothing drawn is stored in"


def places(o):
    if isinstance(o, dict):
        if isinstance(o.get("l"), int) and "p" in o:
            yield o["l"], o["p"]
            return
        for k, v in o.items():
            if k not in ("c", "ty", "at"):
                yield from places(v)
    elif isinstance(o, list):
        for v in o:
            yield from places(v)


def fields(p):
    return tuple(e["f"] for e in p if isinstance(e, dict) and "f" in e)
