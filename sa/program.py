"""The program as dumped by the compiler driver: functions, control flow, loops, liveness."""
import json
import os


INSIDE = ("std::thread::local::LocalKey", "core::cell::Cell", "core::cell::RefCell", "core::cell::UnsafeCell",
          "core::sync::atomic::Atomic", "std::sync::poison::mutex::Mutex", "std::sync::poison::rwlock::RwLock")


def short_ty(t):
    """short name of a type in JSON form (same scheme as the driver's place types)"""
    k = t["k"]
    if k == "prim":
        return t["n"]
    if k == "param":
        return "T:" + t["n"]
    if k == "ref":
        return ("&mut " if t["m"] else "&") + short_ty(t["t"])
    if k == "adt":
        return t["p"]
    if k == "dyn":
        return "dyn"
    return "?"


class Fn(object):
    def __init__(self, j, crate):
        self.j = j
        self.crate = crate
        self.id = j["id"]
        self.path = j["path"]
        self.name = j.get("name", "{closure}")
        self.argc = j["argc"]
        self.blocks = j["blocks"]
        self.locals = j["locals"]
        self.span = j["span"]
        self.gen = j.get("gen", [])
        self._cfg = False

    def local_ty(self, i):
        return self.locals[i]["ty"]

    # ------------------------------------------------------------ control flow
    def cfg(self):
        if self._cfg:
            return
        self._cfg = True
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            if b["cleanup"]:
                continue
            t = b["t"]
            k = t["k"]
            if k == "goto":
                s = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["ts"]] + [t["ow"]]
            elif k in ("call", "assert"):
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            self.succ[i] = s
        # reachability and postorder
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(self.succ[x])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        pred = {b: [] for b in order}
        for b in order:
            for x in self.succ[b]:
                pred[x].append(b)
        self.pred = pred
        # blocks from which the function can return
        ret = [b for b in order if self.blocks[b]["t"]["k"] == "return"]
        canret = set(ret)
        st = list(ret)
        while st:
            b = st.pop()
            for p in pred[b]:
                if p not in canret:
                    canret.add(p)
                    st.append(p)
        self.canret = canret
        # a block that can never return may still be the body of a diverging loop; dead ends only
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    changed = True

        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b
        self.loops = {}
        self.irreducible = False
        for b in order:
            for x in self.succ[b]:
                if self.rpo[x] <= self.rpo[b]:
                    if not dom(x, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y)
                            st.extend(pred[y])
        self._liveness()

    def _liveness(self):
        n = len(self.blocks)
        use, df = {}, {}
        self.mutborrowed = set()

        def places(o, out):
            if isinstance(o, dict):
                if "l" in o and "p" in o and isinstance(o["l"], int):
                    out.append(o)
                    return
                for v in o.values():
                    places(v, out)
            elif isinstance(o, list):
                for v in o:
                    places(v, out)

        def reads(o, u, d):
            ps = []
            places(o, ps)
            for p in ps:
                if p["l"] not in d:
                    u.add(p["l"])
                for e in p["p"]:
                    if isinstance(e, dict) and "i" in e and e["i"] not in d:
                        u.add(e["i"])

        def writes(p, u, d):
            if p["p"]:
                reads(p, u, d)
            else:
                d.add(p["l"])
        for b in self.order:
            u, d = set(), set()
            for s in self.blocks[b]["s"]:
                if "setd" in s:
                    reads(s["setd"], u, d)
                    continue
                r = s["r"]
                if r["k"] == "ref" and r["b"] == "mut" and (not r["p"]["p"] or r["p"]["p"][0] != "*"):
                    self.mutborrowed.add(r["p"]["l"])
                if r["k"] == "rawptr":
                    self.mutborrowed.add(r["p"]["l"])
                reads(r, u, d)
                writes(s["d"], u, d)
            t = self.blocks[b]["t"]
            k = t["k"]
            if k == "switch" or k == "assert":
                reads(t["o"], u, d)
            elif k == "call":
                reads(t["f"], u, d)
                reads(t["args"], u, d)
                writes(t["d"], u, d)
            elif k == "return" and 0 not in d:
                u.add(0)
            use[b], df[b] = u, d
        live = {b: set() for b in self.order}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.order):
                o = set()
                for x in self.succ[b]:
                    o |= live.get(x, set())
                i = use[b] | (o - df[b])
                if i != live[b]:
                    live[b] = i
                    changed = True
        self.live = live


class Program(object):
    def __init__(self, outdir, crates=("optlib", "optlib_testfunc")):
        self.fns = {}
        self.adts = {}
        self.raw = {}
        self.shared = {}         # statics and thread locals that can change: type of what they hold
        for c in crates:
            f = os.path.join(outdir, c + ".json")
            with open(f) as h:
                d = json.load(h)
            self.raw[c] = d
            for x in d["ext"]:
                self.fns.setdefault(x["id"], Fn(x, "ext"))
            for x in d["fns"]:
                self.fns[x["id"]] = Fn(x, c)
            for a in d["adts"]:
                self.adts[a["p"]] = a
            for x in d.get("statics", []):
                t = x["ty"]
                key = t.get("p") == "std::thread::local::LocalKey"
                if key or x["static"] and not x["local"] and (x["mut"] or not x["freeze"]):
                    while t.get("p") in INSIDE:
                        t = t["a"][0]
                    self.shared[x["p"]] = t

    def local_fns(self, crate=None):
        return [f for f in self.fns.values() if f.crate != "ext" and (crate is None or f.crate == crate)]

    def fields(self, adt, variant=0):
        a = self.adts.get(adt)
        return [f["n"] for f in a["v"][variant]["f"]] if a else []

    def field_index(self, adt, name):
        fs = self.fields(adt)
        return fs.index(name) if name in fs else None

    def find_method(self, adt, name, trait=None):
        """inherent (or trait) method of a type, by type path and names"""
        out = []
        for f in self.local_fns():
            s = f.j.get("self")
            if f.name != name or s is None:
                continue
            if s.get("p") != adt:
                continue
            if (f.j.get("trait") or None) != trait:
                continue
            out.append(f)
        return out

    def find_impl(self, trait, name, selfty):
        """method of a local impl of trait for the type (JSON), matching the head constructor"""
        out = []
        for f in self.local_fns():
            if f.j.get("trait") == trait and f.name == name and _head(f.j["self"]) == _head(selfty):
                out.append(f)
        return out

    def trait_default(self, trait, name):
        for f in self.local_fns():
            if f.j.get("intrait") == trait and f.name == name:
                return f
        return None


def _head(t):
    k = t["k"]
    if k == "adt":
        return ("adt", t["p"])
    if k == "prim":
        return ("prim", t["n"])
    return (k,)
