"""Dataflow inside one MIR body: roots of references, what feeds a value, what an operation changes."""

FLOATS = ("f16", "f32", "f64", "f128")
INTS = ("usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128")
STEPS = ("Add", "Sub", "AddWithOverflow", "SubWithOverflow", "AddUnchecked", "SubUnchecked")


def fn_of(t):
    """what a call terminator calls, when that is known"""
    c = t["f"].get("c")
    return c["ty"]["fn"] if c and c["ty"]["k"] == "fndef" else None


def path_of(t):
    g = fn_of(t)
    return g["path"] if g else ""


def callee(t, fns):
    """the function with a body a call reaches, closures included"""
    g = fn_of(t)
    if not g:
        return None
    for k in ("rid", "id"):
        if g.get(k) in fns:
            return fns[g[k]]
    return None


def closures(g):
    """closures a call passes on as type arguments"""
    out = []

    def go(t):
        if isinstance(t, dict):
            if t.get("k") == "closure":
                out.append(t["id"])
            for v in t.values():
                go(v)
        elif isinstance(t, list):
            for v in t:
                go(v)
    go(g.get("targs", []))
    return out


def operands(o):
    """locals an operand, rvalue or list of operands reads"""
    if isinstance(o, dict):
        if isinstance(o.get("l"), int) and "p" in o:
            yield o["l"]
            for e in o["p"]:
                if isinstance(e, dict) and isinstance(e.get("i"), int):
                    yield e["i"]
            return
        for k, v in o.items():
            if k not in ("c", "ty", "at"):
                yield from operands(v)
    elif isinstance(o, list):
        for v in o:
            yield from operands(v)


def constant(o):
    c = o.get("c") if isinstance(o, dict) else None
    return c if c else None


class Flow(object):
    def __init__(self, f):
        self.f = f
        f.cfg()
        self.defs = {}
        for i in f.order:
            b = f.blocks[i]
            for s in b["s"]:
                if "setd" not in s:
                    self.defs.setdefault(s["d"]["l"], []).append((i, s, None))
            if b["t"]["k"] == "call":
                self.defs.setdefault(b["t"]["d"]["l"], []).append((i, None, b["t"]))

    def ty(self, l):
        return self.f.locals[l]["ty"]

    def root(self, l, seen=()):
        """the local a reference (or copy of one) leads to"""
        ds = self.defs.get(l, [])
        if len(ds) != 1 or l in seen or l <= self.f.argc:
            return l
        _, s, t = ds[0]
        if s is not None:
            if s["d"]["p"]:
                return l
            r = s["r"]
            if r["k"] in ("ref", "rawptr"):
                return self.root(r["p"]["l"], seen + (l,))
            if r["k"] == "use" and isinstance(r["o"], dict) and "p" in r["o"] and self.ty(l)["k"] in ("ref", "ptr"):
                return self.root(r["o"]["p"]["l"], seen + (l,))
            if r["k"] == "cast" and self.ty(l)["k"] in ("ref", "ptr"):
                ls = list(operands(r.get("o")))
                return self.root(ls[0], seen + (l,)) if len(ls) == 1 else l
            return l
        g = fn_of(t)
        if g and g.get("name") in ("deref_mut", "deref", "index_mut", "index", "as_mut", "as_ref", "borrow_mut", "by_ref",
                                   "as_mut_slice", "as_slice", "get_mut", "iter_mut", "last_mut", "first_mut", "unwrap",
                                   "into_iter") and t["args"] and self.ty(l)["k"] == "ref":
            ls = list(operands(t["args"][0]))
            if ls:
                return self.root(ls[0], seen + (l,))
        return l

    def mutated(self, t):
        """roots of what a call gets by mutable reference (or owns a mutable reference to)"""
        out = []
        for a in t["args"]:
            for l in list(operands(a))[:1]:
                if mutable(self.ty(l)):
                    out.append((self.root(l), l))
        return out

    def slice_of(self, start, body):
        """locals that feed the given ones inside the blocks of body"""
        feeds = {}
        for i in body:
            b = self.f.blocks[i]
            for s in b["s"]:
                if "setd" in s:
                    continue
                feeds.setdefault(s["d"]["l"], set()).update(operands(s["r"]))
                if s["r"]["k"] == "ref" and s["r"]["b"] == "mut":      # written through later
                    feeds.setdefault(s["r"]["p"]["l"], set()).add(s["d"]["l"])
                feeds[s["d"]["l"]].update(x for e in s["d"]["p"] if isinstance(e, dict) and isinstance(e.get("i"), int)
                                          for x in [e["i"]])
            t = b["t"]
            if t["k"] == "call":
                args = set(operands(t["args"])) | set(operands(t["f"]))
                feeds.setdefault(t["d"]["l"], set()).update(args)
                for r, l in self.mutated(t):
                    feeds.setdefault(r, set()).update(args)
                    feeds.setdefault(l, set()).update(args)
        seen, st = set(), list(start)
        while st:
            l = st.pop()
            if l not in seen:
                seen.add(l)
                st += feeds.get(l, ())
        return seen


def mutable(t):
    """a mutable reference, or a value that may hold one"""
    k = t["k"]
    if k == "ref":
        return t["m"] or mutable(t["t"])
    if k == "closure":
        return True
    if k == "ptr":
        return True
    return False
