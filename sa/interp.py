"""Gated value-graph construction for MIR bodies.

Every basic block is visited once per loop pass, in reverse post order; states
meet at joins by gating (ite) on the branch conditions, natural loops are
summarised by solving the recurrences of the locations they modify.  Local
callees and closures are analysed in the caller's state.  The result for a
function is a closed value graph over its symbolic inputs, the conditions under
which it panics, and the trace of the opaque calls it makes.
"""
import sys
from fractions import Fraction
import struct
import itertools

from terms import *
import terms as tm
from program import short_ty, _head

sys.setrecursionlimit(100000)

INT_TYPES = set(WIDTH) | {"char"}
FLOAT_TYPES = {"f32", "f64"}
ORD = "core::cmp::Ordering"
TRACE = "$trace"


class Unsupported(Exception):
    pass


class State(object):
    __slots__ = ("mem", "facts")

    def __init__(self, mem, facts=TRUE):
        self.mem = mem
        self.facts = facts

    def copy(self):
        return State(dict(self.mem), self.facts)


SINGLE = set()         # numbers that came from an f32: rounding them to f32 changes nothing


def contains(v, what):
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            todo.extend((x.hi, x.lo))
        elif isinstance(x, Val) and x not in seen:
            seen.add(x)
            if what(x):
                return True
            todo.extend(x.args)
    return False


def widened(v):
    for x in leaves(v):
        if isinstance(x, T) and const(x) is None:
            SINGLE.add(x)


def rounded(v):
    return contains(v, lambda x: isinstance(x, T) and x.op == "r32")


def single(v):
    """v rounded to f32"""
    def f(x):
        c = const(x)
        if c is not None:
            try:
                return num(Fraction(struct.unpack("<f", struct.pack("<f", float(c)))[0]))
            except OverflowError:
                return mk("r32", x)
        if x.op in ("r32", "unk", "fconst") or x.op == "num" and contains(x, lambda y: y in SINGLE):
            return x
        if x in SINGLE or contains(x, lambda y: y in SINGLE):
            return x
        return mk("r32", x)
    return lift("r32", f, v)


def modest(v):
    """an integer bounded by the size of something in memory or by constants that fit 31 bits"""
    def ok(x):
        if not isinstance(x, T):
            return False
        c = const(x)
        if c is not None:
            return 0 <= c < 1 << 31
        if x.op == "num":
            return all(0 < cf < 1 << 31 and all(ok(a) for a, e in m) for m, cf in poly(x).items())
        return x.op in ("len", "k", "bv", "first", "trip", "draw", "irem") and nonneg(x)
    return all(ok(x) for x in leaves(v))


class Frame(object):
    def __init__(self, fn, fid, tsub):
        self.fn = fn
        self.fid = fid
        self.tsub = tsub

    def root(self, l):
        return "%s:_%d" % (self.fid, l)


class LoopRec(object):
    pass


LOOPS = {}
_recno = itertools.count(1)


# ---------------------------------------------------------------- references
def mref(root, path=()):
    return mk("mref", root, tuple(path))


def load_path(v, path):
    for e in path:
        if e[0] == "f":
            v = field(v, e[1])
        elif e[0] == "v":
            v = vfield(v, e[1], e[2])
        else:
            v = idx(v, e[1])
    return v


def store_path(v, path, x):
    if not path:
        return x
    e = path[0]
    if e[0] == "f":
        return set_field(v, e[1], store_path(field(v, e[1]), path[1:], x))
    if e[0] == "v":
        return set_field(v, (e[1], e[2]), store_path(vfield(v, e[1], e[2]), path[1:], x))
    return upd(v, e[1], store_path(idx(v, e[1]), path[1:], x))


def is_mref(v):
    return any(x.op == "mref" for x in leaves(v))


def is_bool(v):
    return all(x is TRUE or x is FALSE or x is BOT for x in leaves(v)) and v is not BOT


def mark(v, t):
    """note the numeric type of the leaf terms of v (short type name t)"""
    if t in WIDTH:
        for x in leaves(v):
            if x.op not in ("num", "bot", "mref", "agg", "unk"):
                (tm.UINTS if t[0] == "u" else tm.INTS).add(x)
    elif t == "bool":
        if not is_bool(v):
            return boolatom(v)
    return v


class Engine(object):
    MAXDEPTH = 40

    def __init__(self, prog):
        self.prog = prog
        self.sinks = [[]]
        self.ks = []
        self.loops = []
        self.stack = []
        self.unknowns = {}
        self.analysed = set()
        self.calls = 0
        self.closure_sub = {}
        self.nrec = 0
        self.drawn = 0
        import models
        self.models = models

    # ------------------------------------------------------------ panics
    def panic(self, st, cond, site, what):
        c = band(st.facts, cond)
        if c is not FALSE:
            self.sinks[-1].append((c, site, what))

    UB = False                                        # C37: conditions of unsafe operations are recorded, too

    def unsafe(self, st, cond, site, what):
        if self.UB:
            self.panic(st, cond, site, "UB: " + what)

    def lifted(self, entries, f):
        for c, site, what in entries:
            c = f(c)
            if c is not FALSE:
                self.sinks[-1].append((c, site, what))

    def note_unknown(self, what):
        self.unknowns[what] = self.unknowns.get(what, 0) + 1

    # ------------------------------------------------------------ memory
    def load(self, ptr, st):
        """value behind a reference value (shared references are transparent)"""
        if isinstance(ptr, N):
            c = node(ptr.atom, TRUE, FALSE)
            return ite(c, self.load(ptr.hi, st), self.load(ptr.lo, st))
        if ptr.op == "mref":
            v = st.mem.get(ptr.args[0])
            if v is None:
                return BOT
            return load_path(v, ptr.args[1])
        return ptr

    def deep(self, v, st):
        """load until the value is not a reference"""
        n = 0
        while is_mref(v) and n < 8:
            v = self.load(v, st)
            n += 1
        return v

    def write_ref(self, ptr, x, st):
        for lits, leaf in self._targets(ptr):
            if leaf.op != "mref":
                if leaf is not BOT:
                    self.note_unknown("write through unknown reference")
                continue
            root, path = leaf.args
            old = st.mem.get(root, BOT)
            new = store_path(old, path, x)
            st.mem[root] = ite(lits, new, old)

    def _targets(self, ptr):
        if isinstance(ptr, T):
            return [(TRUE, ptr)]
        out = {}

        def go(v, c):
            if c is FALSE:
                return
            if isinstance(v, N):
                a = node(v.atom, TRUE, FALSE)
                go(v.hi, band(c, a))
                go(v.lo, band(c, bnot(a)))
            else:
                out[v] = bor(out.get(v, FALSE), c)
        go(ptr, TRUE)
        return [(c, v) for v, c in out.items()]

    def resolve(self, fr, p, st):
        """[(cond, root, path)] of an lvalue"""
        cur = [(TRUE, fr.root(p["l"]), ())]
        var = None
        for e in p["p"]:
            nxt = []
            for c, root, path in cur:
                if e == "*":
                    v = load_path(st.mem.get(root, BOT), path)
                    for c2, leaf in self._targets(v):
                        cc = band(c, c2)
                        if cc is FALSE:
                            continue
                        if leaf.op == "mref":
                            nxt.append((cc, leaf.args[0], leaf.args[1]))
                        else:
                            nxt.append((cc, root, path))
                elif e in ("?", "oc"):
                    nxt.append((c, root, path))
                elif "f" in e:
                    if var is not None:
                        nxt.append((c, root, path + (("v", var, e["f"]),)))
                    else:
                        nxt.append((c, root, path + (("f", e["f"]),)))
                elif "d" in e:
                    nxt.append((c, root, path))
                elif "i" in e:
                    i = st.mem.get(fr.root(e["i"]), BOT)
                    nxt.append((c, root, path + (("i", i),)))
                elif "c" in e:
                    i = num(e["c"])
                    if e["e"]:
                        i = sub(length(load_path(st.mem.get(root, BOT), path)), i)
                    nxt.append((c, root, path + (("i", i),)))
                else:
                    raise Unsupported("place projection %r" % (e,))
            var = e["d"] if isinstance(e, dict) and "d" in e else None
            # equal targets merge
            m = {}
            for c, r, q in nxt:
                m[(r, q)] = bor(m.get((r, q), FALSE), c)
            cur = [(c, r, q) for (r, q), c in m.items()]
        return cur

    def read(self, fr, p, st):
        v = st.mem.get(fr.root(p["l"]), BOT)
        var = None
        for e in p["p"]:
            if e == "*":
                v = self.load(v, st)
            elif e in ("?", "oc"):
                pass
            elif "f" in e:
                if is_mref(v):
                    v = self.deep(v, st)
                v = vfield(v, var, e["f"]) if var is not None else field(v, e["f"])
            elif "d" in e:
                pass
            elif "i" in e:
                v = idx(v, st.mem.get(fr.root(e["i"]), BOT))
            elif "c" in e:
                i = num(e["c"])
                if e["e"]:
                    i = sub(length(v), i)
                v = idx(v, i)
            elif "s" in e:
                n = length(v)
                hi = sub(n, num(e["t"])) if e["e"] else num(e["t"])
                v = vslice(v, num(e["s"]), hi)
            else:
                raise Unsupported("projection %r" % (e,))
            var = e["d"] if isinstance(e, dict) and "d" in e else None
        t = p.get("t")
        if t in WIDTH or t == "bool":
            v = mark(v, t)
        return v

    def write(self, fr, p, x, st):
        t = p.get("t")
        if t in WIDTH or t == "bool":
            x = mark(x, t)
        if not p["p"]:
            st.mem[fr.root(p["l"])] = x
            return
        for c, root, path in self.resolve(fr, p, st):
            old = st.mem.get(root)
            if old is None:
                old = unk("uninit " + root) if path else BOT
                if path and all(e[0] == "f" for e in path):
                    old = mk("sym", "$uninit")
            new = store_path(old, path, x)
            st.mem[root] = ite(c, new, old)

    # ------------------------------------------------------------ operands
    def constant(self, c, fr):
        t = c["ty"]
        k = t["k"]
        if k == "fndef":
            return fnval(t["fn"])
        s = c.get("static", c.get("def"))
        if s in self.prog.shared and ("static" in c or t.get("p", "").endswith("::LocalKey")):
            return mref("static " + s)
        if "bits" in c:
            b = int(c["bits"])
            if k == "prim":
                n = t["n"]
                if n == "bool":
                    return bool_(b != 0)
                if n in WIDTH:
                    return tm._wrap(b, n)
                if n == "f64":
                    return fconst(struct.unpack("<d", struct.pack("<Q", b))[0])
                if n == "f32":
                    return fconst(struct.unpack("<f", struct.pack("<I", b))[0])
                return num(b)
            if k == "adt" and t["p"] == ORD:
                return agg(ORD, {255: 0, 0: 1, 1: 2}[b & 255], ())
            if k == "adt":
                a = self.prog.adts.get(t["p"])
                if a and len(a["v"]) > 1 and all(not v["f"] for v in a["v"]):
                    return agg(t["p"], b, ())
                return self.tree(c, fr)
        if "bytes" in c:
            return mk("str", bytes.fromhex(c["bytes"]).decode("utf8", "replace"))
        if "membytes" in c:
            if k == "ref" and t["t"]["k"] == "array":
                return mk("bytes", c["membytes"])
            return self.tree(c, fr)
        if k == "tuple" and not t["a"]:
            return UNIT
        if c.get("zst"):
            if k == "adt":
                if t["p"] == OPT:
                    return NONE
                return agg(t["p"], 0, ())
            if k == "closure":
                return agg("closure:" + t["id"], 0, ())
            return UNIT
        if k == "adt" and t["p"] == OPT and c["s"].endswith("None"):
            return NONE
        return self.tree(c, fr)

    def tree(self, c, fr):
        """structured constant"""
        def go(x):
            if "bits" in x:
                return self.constant(x, fr)
            fs = [go(y) for y in x["f"]]
            k = x["ty"]["k"]
            if k == "tuple":
                return tup(*fs)
            if k == "array":
                return lit(*fs)
            p = x["ty"].get("p")
            if p == ORD:
                return agg(ORD, x["v"], ())
            if p in self.prog.adts or p in (OPT, RES) or p.startswith("core::ops::range::Range") and len(fs) == 2:
                return agg(p, x["v"], fs)
            return None

        def sound(x):
            return x is not None and (not isinstance(x, T) or x.op != "agg" or all(sound(y) for y in x.args[2]))
        if "tree" not in c:
            return unk("const " + c["s"])
        try:
            v = go(c["tree"])
        except (KeyError, TypeError):
            v = None
        return v if sound(v) else unk("const " + c["s"])

    def operand(self, fr, o, st):
        if "p" in o:
            return self.read(fr, o["p"], st)
        if "c" in o:
            return self.constant(o["c"], fr)
        return FALSE  # runtime checks flag

    def opty(self, o):
        if "p" in o:
            return o["p"].get("t", "?")
        if "c" in o:
            return short_ty(o["c"]["ty"])
        return "bool"

    # ------------------------------------------------------------ rvalues
    def discr(self, v, t):
        if t.startswith("&"):
            t = t.lstrip("&").replace("mut ", "", 1)
        if t == ORD:
            return ite(is_variant3(v, 2), ONE, ite(is_variant3(v, 1), ZERO, num(-1)))
        a = self.prog.adts.get(t)
        n = len(a["v"]) if a else 2
        r = ZERO
        for i in range(1, n):
            r = ite(is_variant_n(v, i, n), num(i), r)
        return r

    def rvalue(self, fr, r, st, dt, site):
        k = r["k"]
        if k == "use":
            return self.operand(fr, r["o"], st)
        if k == "ref":
            if r["b"] == "mut":
                return self.addr(fr, r["p"], st)
            if r["p"]["p"] == ["*"]:
                v = st.mem.get(fr.root(r["p"]["l"]), BOT)
                if isinstance(v, T) and v.op == "mref" and v.args[0].startswith("static "):
                    return v                # a reborrow of a static: what it holds can change under it
            return self.read(fr, r["p"], st)
        if k == "rawptr":
            return self.addr(fr, r["p"], st)
        if k == "bin":
            a, b = self.operand(fr, r["a"], st), self.operand(fr, r["b"], st)
            return self.binop(r["op"], a, b, self.opty(r["a"]), st)
        if k == "un":
            a = self.operand(fr, r["a"], st)
            t = self.opty(r["a"])
            if r["op"] == "Not":
                if t == "bool" or is_bool(a):
                    return bnot(boolatom(a) if not is_bool(a) else a)
                return bitop("not", t, a)
            if r["op"] == "Neg":
                return neg(a)
            if r["op"] == "PtrMetadata":
                return length(self.deep(a, st))
            return unk("unop " + r["op"], a)
        if k == "discr":
            p = r["p"]
            v = self.deep(self.read(fr, p, st), st)
            return self.discr(v, p.get("t", "?"))
        if k == "agg":
            ops = [self.operand(fr, o, st) for o in r["ops"]]
            if r["ak"] == "array":
                return lit(*ops)
            if r["ak"] == "tuple":
                return tup(*ops)
            if r["ak"] == "adt":
                return agg(r["p"], int(r["v"]), ops)
            if r["ak"] == "closure":
                self.closure_sub[r["id"]] = fr.tsub
                return agg("closure:" + r["id"], 0, ops)
            return unk("aggregate")
        if k == "cast":
            v = self.operand(fr, r["o"], st)
            src, dst = self.opty(r["o"]), short_ty(r["ty"])
            ck = r["ck"]
            if ck == "IntToInt":
                if is_bool(v):
                    return ite(v, ONE, ZERO)
                if src in WIDTH and dst in WIDTH:
                    if (src[0] == dst[0] and WIDTH[dst] >= WIDTH[src]) or \
                            (src[0] == "u" and WIDTH[dst] > WIDTH[src]) or \
                            (nonneg(v) and WIDTH[dst] >= 64 or WIDTH[dst] >= 32 and modest(v)):
                        return mark(v, dst)
                    return bitop("cast", dst, v)
                return v
            if ck == "IntToFloat":
                return single(v) if dst == "f32" else v
            if ck == "FloatToFloat":
                if dst == "f64":
                    widened(v)
                    return v
                return single(v)
            if ck == "FloatToInt":
                return lift("f2i", lambda x: x if isint(x) else mark(mk("f2i", dst, x), dst), v)
            if ck.startswith("PointerCoercion"):
                return v
            if ck.startswith("Transmute") or ck.startswith("Ptr"):
                return v
            return unk("cast " + ck, v)
        if k == "repeat":
            v = self.operand(fr, r["o"], st)
            n = "".join(c for c in str(r["n"]).split("_")[0] if c.isdigit())
            if n:
                return comp(num(int(n)), fresh_k(), v)
            return unk("repeat")
        return unk("rvalue " + k)

    def addr(self, fr, p, st):
        ts = self.resolve(fr, p, st)
        r = None
        for c, root, path in ts:
            m = mref(root, path)
            r = m if r is None else ite(c, m, r)
        return r if r is not None else BOT

    def binop(self, op, a, b, t, st):
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            v = self.binop(base, a, b, t, st)
            o = FALSE
            if base == "Sub" and t.startswith("u"):
                o = lt(a, b, "i")
            return tup(v, o)
        if op.endswith("Unchecked"):
            op = op[:-len("Unchecked")]
        boolish = t == "bool" or (is_bool(a) and is_bool(b))
        if op in ("Eq", "Ne"):
            if boolish:
                r = ite(a, b, bnot(b))
            elif t in FLOAT_TYPES:
                r = eqn(a, b, "f")
            else:
                r = eqn(a, b, "i")
            return r if op == "Eq" else bnot(r)
        kind = "f" if t in FLOAT_TYPES else "i"
        if t == "f32" and op in ("Add", "Sub", "Mul", "Div") and (rounded(a) or rounded(b)):
            return single(self.binop(op, a, b, "f64", st))
        if op == "Lt":
            return lt(a, b, kind)
        if op == "Le":
            return le(a, b, kind)
        if op == "Gt":
            return lt(b, a, kind)
        if op == "Ge":
            return le(b, a, kind)
        if op == "Cmp":
            return order(lt(a, b, kind), lt(b, a, kind))
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Div":
            return div(a, b) if kind == "f" else intdiv("idiv", a, b)
        if op == "Rem":
            return fun("frem", a, b) if kind == "f" else intdiv("irem", a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if boolish:
                return {"BitAnd": band, "BitOr": bor}[op](a, b) if op != "BitXor" else ite(a, bnot(b), b)
            return bitop(op[3:].lower(), t, a, b)
        if op in ("Shl", "Shr"):
            return bitop(op.lower(), t, a, b)
        return unk("binop " + op, a, b)

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, args, st, site, tsub=None):
        """analyse a local function in state st; (state, value) or None if it never returns"""
        if len(self.stack) > self.MAXDEPTH or self.stack.count(fn.id) > 2:
            self.note_unknown("recursion " + fn.path)
            return self.havoc_call("recursion " + fn.path, args, st)
        fn.cfg()
        if fn.irreducible:
            self.note_unknown("irreducible " + fn.path)
            return self.havoc_call("irreducible " + fn.path, args, st)
        self.calls += 1
        if fn.crate != "ext":
            self.analysed.add(fn.id)
        self.stack.append(fn.id)
        try:
            fr = Frame(fn, site, tsub or {})
            st = st.copy()
            for i, a in enumerate(args):
                st.mem[fr.root(i + 1)] = a
            for i in range(len(args), fn.argc):
                st.mem[fr.root(i + 1)] = unk("missing argument")
            outs = self.region(fr, set(fn.order), 0, st, False)
        finally:
            self.stack.pop()
        rets = outs.get("return")
        if not rets:
            return None
        g, s = self.merge(rets)
        ret = s.mem.get(fr.root(0), UNIT)
        pre = site + ":_"
        for k in [k for k in s.mem if k.startswith(pre) and k not in st.mem]:
            del s.mem[k]
        for k in [k for k in s.mem if k.startswith(pre)]:
            del s.mem[k]
        return s, ret

    def havoc_call(self, why, args, st):
        st = st.copy()
        u = unk(why, *[a for a in args if isinstance(a, Val)])
        # what is called may refuse to go on, too
        self.panic(st, boolatom(unk("panic of " + why, *[a for a in args if isinstance(a, Val)])), "", "in " + why)
        for a in args:
            for _, leaf in self._targets(a):
                if leaf.op == "mref":
                    self.write_ref(leaf, unk("havoc " + why, self.load(leaf, st)), st)
        return st, u

    # ------------------------------------------------------------ regions
    def merge(self, inc):
        if len(inc) == 1:
            return inc[0]
        g = FALSE
        for c, _ in inc:
            g = bor(g, c)
        roots = set()
        for _, s in inc:
            roots |= set(s.mem)
        mem = {}
        for r in roots:
            vs = [(c, s.mem[r]) for c, s in inc if r in s.mem]
            v = vs[-1][1]
            ch = False
            for c, x in reversed(vs[:-1]):
                if x is not v:
                    v = ite(c, x, v)
                    ch = True
            mem[r] = restrict(v, g) if ch else v
        f = inc[-1][1].facts
        ch = False
        for c, s in reversed(inc[:-1]):
            if s.facts is not f:
                f = ite(c, s.facts, f)
                ch = True
        if ch:
            f = restrict(f, g)
        return g, State(mem, f)

    def region(self, fr, blocks, entry, st, is_loop):
        fn = fr.fn
        inc = {entry: [(TRUE, st)]}
        outs = {}

        def route(t, g, s):
            if g is FALSE:
                return
            if t == "return" or t not in blocks or (is_loop and t == entry):
                outs.setdefault(t, []).append((g, s))
            else:
                inc.setdefault(t, []).append((g, s))
        for b in sorted(blocks, key=lambda x: fn.rpo[x]):
            e = inc.pop(b, None)
            if not e:
                continue
            g, s = self.merge(e)
            self.sinks.append([])
            if b in fn.loops and not (is_loop and b == entry):
                res = self.run_loop(fr, b, s)
            else:
                res = self.block(fr, b, s)
            ent = self.sinks.pop()
            self.lifted(ent, lambda c: band(g, c))
            for t, eg, es in res:
                route(t, band(g, eg), es)
        return outs

    def run_loop(self, fr, h, st):
        fn = fr.fn
        body = fn.loops[h]
        keep = fn.live[h] | fn.mutborrowed
        pre = fr.fid + ":_"

        def dead(k):
            return k.startswith(pre) and k[len(pre):].isdigit() and int(k[len(pre):]) not in keep
        st = st.copy()
        for k in [k for k in st.mem if dead(k)]:
            del st.mem[k]

        def step(s, K):
            outs = self.region(fr, body, h, s, True)
            back = outs.pop(h, [])
            exits = [(t, g, x) for t, l in outs.items() for g, x in l]
            return back, exits
        return self.summarise(st, step, (fn, h))

    # ------------------------------------------------------------ loops
    def summarise(self, st, step, where):
        """close the loop: [(tag, guard, state)] for its exits"""
        K = fresh_k()
        self.ks.append(K)
        try:
            return self._summarise(st, step, where, K)
        finally:
            self.ks.pop()

    def _summarise(self, entry, step, where, K):
        phis, closed = {}, {}

        def init(loc):
            return load_path(entry.mem[loc[0]], loc[1])

        def header(loc):
            if loc in closed:
                return closed[loc]
            p = phis[loc]
            i = init(loc)
            if is_bool(i):
                return boolatom(p)
            return p
        for rnd in range(60):
            s = entry.copy()
            for loc in sorted(phis, key=str):
                s.mem[loc[0]] = store_path(s.mem[loc[0]], loc[1], header(loc))
            h = s.copy()
            self.sinks.append([])
            nl = len(self.loops)
            back, exits = step(s, K)
            pan = self.sinks.pop()
            if not back:
                self.lifted(pan, lambda c: subst(c, {K: ZERO}))
                return [(t, subst(g, {K: ZERO}), self.substate(x, {K: ZERO})) for t, g, x in exits]
            bg, bs = self.merge(back)
            new = set()
            for r in entry.mem:
                if r in bs.mem:
                    self.diff(h.mem[r], bs.mem[r], (), r, phis, new)
            if new:
                for loc in new:
                    for l2 in [l for l in phis if l[0] == loc[0] and l[1][:len(loc[1])] == loc[1]]:
                        del phis[l2]
                        closed.pop(l2, None)
                    p = fresh_phi()
                    i = init(loc)
                    if not isinstance(i, N) and i is not BOT and not i.op == "unk":
                        if isint(i):
                            (tm.UINTS if nonneg(i) else tm.INTS).add(p)
                    phis[loc] = p
                del self.loops[nl:]
                continue
            unsolved = {phis[l]: l for l in phis if l not in closed}
            if not unsolved:
                break
            U = set(unsolved)
            prog = False
            nvs = {}
            for loc in sorted(phis, key=str):
                if loc in closed:
                    continue
                nvs[loc] = restrict(load_path(bs.mem[loc[0]], loc[1]), bg) if loc[0] in bs.mem else BOT
            for loc in nvs:
                c = self.solve(phis[loc], nvs[loc], init(loc), K, U)
                if c is not None:
                    closed[loc] = c
                    prog = True
            if prog:
                del self.loops[nl:]
                continue
            X = bnot(bg)
            nat = self.natural(X, K, U)
            if nat is None:
                break  # unbounded loop: keep the record
            # mutual recurrences: tuple folds
            deps = {}
            for loc in nvs:
                deps[loc] = set(unsolved[u] for u in nvs[loc].free & U)
            best = None
            for loc in nvs:
                c, w = set([loc]), [loc]
                while w:
                    x = w.pop()
                    for y in deps[x]:
                        if y not in c:
                            c.add(y)
                            w.append(y)
                if best is None or len(c) < len(best):
                    best = c
            grp = sorted(best, key=str)
            for loc, v in zip(grp, self.foldgroup(grp, nvs, phis, init, K)):
                closed[loc] = v
            del self.loops[nl:]
        else:
            self.note_unknown("loop did not stabilise")
        return self.close_loop(entry, where, K, phis, closed, h, bg, bs, exits, pan, init)

    def foldgroup(self, grp, nvs, phis, init, K):
        j = fresh_k()
        if len(grp) == 1:
            loc = grp[0]
            p = phis[loc]
            i, nv = init(loc), nvs[loc]
            if is_bool(i):
                q = fresh_phi()
                # booleans are folded as 0/1
                nv2 = subst(nv, {p: q})
                return [boolatom(foldb(K, j, q, i, subst(nv2, {K: j})))]
            return [fold(K, j, p, i, subst(nv, {K: j}))]
        p = fresh_phi("t")
        m = {phis[l]: field(p, n) for n, l in enumerate(grp)}
        m[K] = j
        body = tup(*[subst(nvs[l], m) for l in grp])
        f = fold(K, j, p, tup(*[init(l) for l in grp]), body)
        return [field(f, n) if not is_bool(init(l)) else boolatom(field(f, n)) for n, l in enumerate(grp)]

    def diff(self, h, n, path, root, phis, out):
        if (root, path) in phis or h is n:
            return
        if isinstance(h, T) and isinstance(n, T) and h.op == "agg" and n.op == "agg" and \
                h.args[:2] == n.args[:2] and len(h.args[2]) == len(n.args[2]) and h.args[0] not in tm.ENUMS:
            for i, (x, y) in enumerate(zip(h.args[2], n.args[2])):
                self.diff(x, y, path + (("f", i),), root, phis, out)
            return
        base = h.args[0] if isinstance(h, T) and h.op == "rec" else h
        if isinstance(h, T) and h.op in ("rec", "sym", "field", "idx", "vfield", "res", "k", "bv", "evout", "phi"):
            ls = leaves(n)
            if all(l is base or (l.op == "rec" and l.args[0] is base) for l in ls):
                keys = set()
                for l in ls + [h]:
                    if l.op == "rec":
                        keys |= set(k for k, _ in l.args[1])
                for k in sorted(keys, key=str):
                    if isinstance(k, tuple):
                        self.diff(vfield(h, *k), vfield(n, *k), path + (("v",) + k,), root, phis, out)
                    else:
                        self.diff(field(h, k), field(n, k), path + (("f", k),), root, phis, out)
                return
        # nothing below a location with its own symbol may be hidden
        out.add((root, path))

    def natural(self, X, K, U):
        """(trip bound N, remaining early-exit condition) or None"""
        if X is FALSE:
            return None
        if X is TRUE:
            return ZERO, FALSE
        cands = []
        for a in sorted(support(X), key=lambda x: x.id):
            if a.kind != "le0" or K not in a.free or (a.free & U):
                continue
            ps = poly(a.args[0])
            ck = ps.pop(((K, 1),), 0)
            rest = frompoly(ps)
            if K in rest.free or ck not in (1, -1):
                continue
            if ck == -1:
                val, B = True, rest
            else:
                val, B = False, sub(ONE, rest)
            if assign(X, a, val) is TRUE:
                cands.append((a, val, B))
        if cands:
            n = None
            e = X
            for a, val, B in cands:
                e = assign(e, a, not val)
                n = B if n is None else imin(n, B)
            return nonneg_part(n), e
        for a in sorted(support(X), key=lambda x: x.id):
            if K not in a.free and not (a.free & U):
                hi, lo = assign(X, a, True), assign(X, a, False)
                r1, r0 = self.natural(hi, K, U), self.natural(lo, K, U)
                if r1 is not None and r0 is not None:
                    c = node(a, TRUE, FALSE)
                    return ite(c, r1[0], r0[0]), ite(c, r1[1], r0[1])
        return None

    def close_loop(self, entry, where, K, phis, closed, h, bg, bs, exits, pan, init):
        rec = LoopRec()
        rec.id = next(_recno)
        rec.where, rec.K, rec.phis, rec.closed = where, K, phis, closed
        rec.init = {l: init(l) for l in phis}
        rec.header, rec.guard, rec.back, rec.exits, rec.panics = h, bg, bs, exits, pan
        rec.entry = entry
        rec.stack = list(self.stack)
        LOOPS[rec.id] = rec
        rec.ks = list(self.ks)
        self.loops.append(rec)
        U = set(phis[l] for l in phis if l not in closed)
        X = bnot(bg)
        nat = self.natural(X, K, U)
        out = []
        if nat is None:
            n, e = INFN, X
        else:
            n, e = nat
            n = restrict(n, entry.facts)
        rec.N, rec.e = n, e
        # what the loop takes from the loops around it
        fr = set(bg.free) | set(n.free)
        for l in phis:
            if l not in closed:
                fr |= load_path(bs.mem[l[0]], l[1]).free
                fr |= rec.init[l].free
        for c, _, _ in pan:
            fr |= c.free
        rec.outer = tuple(sorted(fr - set(phis.values()) - {K}, key=lambda x: x.id))

        def loopvals(F):
            m = {}
            for l in phis:
                if l not in closed:
                    v = mk("loopval", rec.id, str(l), rec.outer)
                    if phis[l] in tm.UINTS:
                        tm.UINTS.add(v)
                    m[phis[l]] = v
            return m
        unbound = bool(e.free & U)
        if e is FALSE:
            anye, F = FALSE, None
        else:
            if unbound:
                F = mk("trip", rec.id, rec.outer)
                anye = boolatom(mk("early", rec.id, rec.outer)) if n is not INFN else TRUE
            else:
                j = fresh_k()
                ej = subst(e, {K: j})
                anye = anyq(n, j, ej) if n is not INFN else TRUE
                F = first(n, j, ej)
            tm.UINTS.update(x for x in leaves(F) if x.op != "num")
        rec.any, rec.F = anye, F
        # conditions that held in every completed iteration
        allf = TRUE
        nf = restrict(bs.facts, entry.facts)
        if nf is not TRUE and not (nf.free & U) and n is not INFN:
            j = fresh_k()
            bound = n if anye is FALSE else ite(anye, F, n)
            allf = bnot(anyq(bound, j, bnot(subst(restrict(nf, bnot(X)), {K: j}))))
        # panics inside the loop
        T_ = n if F is None else (add(F, ONE) if n is INFN else ite(anye, add(F, ONE), n))
        if n is INFN and not pan:
            pass
        for i, (c, site, what) in enumerate(pan):
            if (c.free & U) or unbound:
                self.sinks[-1].append((boolatom(mk("looppanic", rec.id, i, rec.outer)), site, what))
                continue
            j = fresh_k()
            cc = anyq(T_, j, subst(c, {K: j}))
            if cc is not FALSE:
                self.sinks[-1].append((cc, site, what))
        for tag, g, s in exits:
            if nat is not None:
                m = {K: n}
                m.update(loopvals(n))
                gn = self.natpart(g, K, n, m, anye)
                if gn is not FALSE:
                    s1 = State({r: restrict(v, g) for r, v in s.mem.items()}, restrict(s.facts, g))
                    s1 = self.substate(s1, m)
                    s1.facts = band(s1.facts, allf)
                    out.append((tag, band(bnot(anye), gn), s1))
            if F is not None:
                ge = g
                if nat is not None:
                    ge = self.earlypart(g, X, K, U)
                if ge is FALSE:
                    continue
                m = {K: F}
                m.update(loopvals(F))
                s2 = State({r: restrict(v, ge) for r, v in s.mem.items()}, restrict(s.facts, ge))
                s2 = self.substate(s2, m)
                s2.facts = band(s2.facts, allf)
                # exits of the same iteration are exclusive and complete
                gl = restrict(ge, e) if e is not FALSE else ge
                out.append((tag, band(anye, subst(gl, m)), s2))
        return out

    def natpart(self, g, K, n, m, anye):
        """guard of an exit edge in the iteration in which the bound is reached"""
        return subst(g, m)

    def earlypart(self, g, X, K, U):
        n = self.natural(X, K, U)
        # set the natural-exit literals of X to "not reached" in g
        cur = g
        for a in sorted(support(X), key=lambda x: x.id):
            if a.kind != "le0" or K not in a.free or (a.free & U):
                continue
            ps = poly(a.args[0])
            ck = ps.pop(((K, 1),), 0)
            rest = frompoly(ps)
            if K in rest.free or ck not in (1, -1):
                continue
            val = ck == -1
            if assign(X, a, val) is TRUE or self._cond_true(X, a, val, K):
                cur = assign(cur, a, not val)
        return cur

    def _cond_true(self, X, a, val, K):
        y = assign(X, a, val)
        # TRUE for some assignment of the loop-invariant atoms and never properly conditional
        if y is TRUE:
            return True
        inv = [b for b in support(y) if K not in b.free]
        if not inv:
            return False
        for b in inv:
            for v in (True, False):
                if assign(y, b, v) is TRUE:
                    return True
        return False

    def substate(self, s, m):
        memo = {}
        return State({r: subst(v, m, memo) for r, v in s.mem.items()}, subst(s.facts, m, memo))

    # ------------------------------------------------------------ recurrences
    def solve(self, p, nv, init, K, U):
        """value at iteration K of x_0 = init, x_{k+1} = nv(k)[p := x_k]; None if not closed"""
        import recur
        return recur.solve(p, nv, init, K, U)

    # ------------------------------------------------------------ blocks
    def block(self, fr, b, st):
        blk = fr.fn.blocks[b]
        st = st.copy()
        for s in blk["s"]:
            if "setd" in s:
                p = s["setd"]
                v = self.read(fr, p, st)
                self.write(fr, p, agg(v.args[0], int(s["v"]), v.args[2]) if isinstance(v, T) and v.op == "agg"
                           else unk("setdiscr"), st)
                continue
            v = self.rvalue(fr, s["r"], st, s["d"].get("t", "?"), s.get("at"))
            self.write(fr, s["d"], v, st)
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], TRUE, st)]
        if k == "return":
            return [("return", TRUE, st)]
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "assert":
            c = self.operand(fr, t["o"], st)
            ok = c if t["e"] else bnot(c)
            site = (fr.fn.path, t["at"])
            self.panic(st, bnot(ok), site, t["m"])
            if band(st.facts, ok) is FALSE:
                return []
            st.facts = band(st.facts, ok)
            return [(t["t"], TRUE, st)]
        if k == "call":
            return self.call_term(fr, b, t, st)
        return []

    def switch(self, fr, t, st):
        v = self.operand(fr, t["o"], st)
        ty = short_ty(t["ty"])
        edges, rest = [], TRUE
        for val, tgt in t["ts"]:
            n = int(val)
            if ty == "bool":
                c = v if n else bnot(v)
            else:
                cv = tm._wrap(n, ty) if ty in WIDTH else num(n)
                c = eqn(v, cv, "i")
            c = band(rest, c)
            edges.append((c, tgt))
            rest = band(rest, bnot(c))
        edges.append((rest, t["ow"]))
        live, total = [], FALSE
        bymap = {}
        for c, tgt in edges:
            if c is FALSE:
                continue
            if fr.fn.blocks[tgt]["t"]["k"] == "unreachable" and not fr.fn.blocks[tgt]["s"]:
                continue
            if tgt not in fr.fn.canret:
                site, what = self.divergence(fr, tgt)
                self.panic(st, c, site, what)
                continue
            bymap[tgt] = bor(bymap.get(tgt, FALSE), c)
            total = bor(total, c)
        if not bymap:
            return []
        if total is not TRUE:
            st.facts = band(st.facts, total)
            if st.facts is FALSE:
                return []
        out = []
        for tgt, c in bymap.items():
            c = restrict(c, total) if len(bymap) > 1 else TRUE
            if c is not FALSE:
                out.append((tgt, c, st.copy()))
        return out

    def divergence(self, fr, b):
        seen = set()
        fn = fr.fn
        w = [b]
        while w:
            x = w.pop(0)
            if x in seen:
                continue
            seen.add(x)
            t = fn.blocks[x]["t"]
            if t["k"] == "call" and t["t"] is None:
                f = t["f"]
                nm = f["c"]["ty"]["fn"]["path"].split("::")[-1] if "c" in f else "panic"
                return (fn.path, t["at"]), nm
            w.extend(fn.succ[x])
        return (fn.path, fn.blocks[b]["t"]["at"]), "diverge"

    # ------------------------------------------------------------ calls
    def call_term(self, fr, b, t, st):
        site = "%s/%s@%d" % (fr.fid, fr.fn.id.split("::", 1)[-1], b)
        args = [self.operand(fr, a, st) for a in t["args"]]
        tys = [self.opty(a) for a in t["args"]]
        at = (fr.fn.path, t["at"])
        if "c" in t["f"]:
            f = t["f"]["c"]["ty"]["fn"]
            f = self.subst_fn(f, fr.tsub)
        else:
            f = self.operand(fr, t["f"], st)
        if t["t"] is None:
            nm = f["path"].split("::")[-1] if isinstance(f, dict) else "diverge"
            r = None
            if isinstance(f, dict) and f.get("rlocal"):
                self.dispatch(f, args, tys, st, site, at)
            else:
                self.panic(st, TRUE, at, nm)
            return []
        dty = t["d"].get("t", "?")
        r = self.dispatch(f, args, tys, st, site, at, dty)
        if r is None:
            return []
        out = []
        if isinstance(r, list):   # iterator with skipped items: (skip, state) is a back edge
            for kind, g, s, v in r:
                if kind == "skip":
                    h = self.enclosing_header(fr, b)
                    if h is None:
                        self.note_unknown("next() of a filtering iterator outside a loop")
                        self.write(fr, t["d"], unk("filtered next"), s)
                        out.append((t["t"], g, s))
                    else:
                        out.append((h, g, s))
                else:
                    self.write(fr, t["d"], v, s)
                    out.append((t["t"], g, s))
            return out
        s, v = r
        self.write(fr, t["d"], v, s)
        return [(t["t"], TRUE, s)]

    def enclosing_header(self, fr, b):
        best = None
        for h, body in fr.fn.loops.items():
            if b in body and (best is None or len(body) < len(fr.fn.loops[best])):
                best = h
        return best

    def subst_ty(self, t, sub):
        if not sub:
            return t
        k = t["k"]
        if k == "param":
            return sub.get(t["n"], t)
        if k in ("adt", "tuple", "dyn") and t.get("a"):
            return dict(t, a=[self.subst_ty(x, sub) for x in t["a"]])
        if k in ("ref", "slice", "array", "ptr"):
            return dict(t, t=self.subst_ty(t["t"], sub))
        if k == "fndef":
            return dict(t, fn=self.subst_fn(t["fn"], sub))
        return t

    def subst_fn(self, f, sub):
        if not sub or not f.get("targs"):
            return f
        f = dict(f, targs=[self.subst_ty(x, sub) for x in f["targs"]])
        if "item" in f:
            f["item"] = self.subst_ty(f["item"], sub)
        return f

    def unify(self, pat, t, sub):
        if pat["k"] == "param":
            sub.setdefault(pat["n"], t)
            return
        if pat["k"] != t["k"]:
            return
        for key in ("a",):
            for x, y in zip(pat.get("a") or [], t.get("a") or []):
                self.unify(x, y, sub)
        if "t" in pat and isinstance(pat["t"], dict) and isinstance(t.get("t"), dict):
            self.unify(pat["t"], t["t"], sub)

    def target(self, f):
        """(local function, type substitution) a callee resolves to, or None"""
        targs = f.get("targs") or []
        if f.get("rid") in self.prog.fns:
            fn = self.prog.fns[f["rid"]]
            sub = {}
            if f["rid"] == f["id"]:
                sub = dict(zip(fn.gen, targs))
            elif "trait" in f and fn.j.get("self") and targs:
                self.unify(fn.j["self"], targs[0], sub)
                for x, y in zip(fn.j.get("targs") or [], targs):
                    self.unify(x, y, sub)
            elif "intrait" in fn.j and targs:
                sub = dict(zip(fn.gen, targs))
            return fn, sub
        if f.get("rkind") == "virtual":
            return None
        if "trait" in f and targs:
            st = targs[0]
            while st["k"] == "ref":
                st = st["t"]
            if st["k"] in ("adt", "tuple"):
                c = self.prog.find_impl(f["trait"], f["name"], st)
                if len(c) == 1:
                    sub = {}
                    self.unify(c[0].j["self"], st, sub)
                    for x, y in zip(c[0].j.get("targs") or [], targs):
                        self.unify(x, y, sub)
                    return c[0], sub
        return None

    def dispatch(self, f, args, tys, st, site, at, dty="?"):
        """call f (callee JSON or function value) -> (state, value), None, or iterator outcomes"""
        if not isinstance(f, dict):
            return self.call_value(f, args, st, site, at, dty)
        if "ctor" in f:
            return st, agg(f["ctor"], int(f.get("variant", 0)), args)
        m = self.models.lookup(self, f)
        if m is not None:
            return m(self, f, args, tys, st, site, at, dty)
        tg = self.target(f)
        if tg is not None:
            return self.call_fn(tg[0], args, st, site, tg[1])
        return self.opaque(f, args, tys, st, site, at, dty)

    def call_value(self, f, args, st, site, at, dty="?"):
        """call a function value (closure, function item, pointer, opaque callable)"""
        f = self.deep(f, st)
        if isinstance(f, N):
            res = []
            for c, leaf in self._targets(f):
                r = self.call_value(leaf, args, st, site, at, dty)
                if r is not None:
                    res.append((c, r))
            if not res:
                return None
            ret = res[-1][1][1]
            for c, (s, v) in reversed(res[:-1]):
                ret = ite(c, v, ret)
            g, s = self.merge([(c, s) for c, (s, v) in res])
            return s, ret
        if f.op == "agg" and f.args[0].startswith("closure:"):
            fn = self.prog.fns.get(f.args[0][8:])
            if fn is None:
                return self.havoc_call("closure body", args, st)
            root = site + "#clo"
            st = st.copy()
            t1 = fn.local_ty(1)
            if t1["k"] == "ref" and t1["m"]:
                st.mem[root] = f
                a0 = mref(root)
            else:
                a0 = f
            r = self.call_fn(fn, [a0] + list(args), st, site + "!", self.closure_sub.get(fn.id, {}))
            if r is not None and root in r[0].mem:
                if r[0].mem[root] is not f:
                    self.note_unknown("closure with mutable captured state")
                del r[0].mem[root]
            return r
        if f.op == "fn":
            return self.dispatch(FNTAB[f.args[0]], args, ["?"] * len(args), st, site, at, dty)
        if f.op == "unk":
            return self.havoc_call("unknown callee", args, st)
        # opaque callable: pure function of its arguments
        a = [self.deep(x, st) for x in args]
        for x in args:
            if is_mref(x):
                self.note_unknown("opaque callable with mutable argument")
        return st, self.typed(mk("call", "apply", (f,) + tuple(a)), dty)

    def typed(self, v, t):
        return mark(v, t)

    HAVOC_ONLY = {"genetic::Population": "alloc::vec::Vec"}

    def opaque(self, f, args, tys, st, site, at, dty):
        """method of an unknown implementation (trait object or type parameter)"""
        tr = f.get("trait")
        name = (tr.split("::")[-1] + "::" if tr else "") + f.get("name", f["path"])
        local = tr is not None and not tr.startswith(("core::", "alloc::", "std::", "num_traits::", "rand::"))
        if not local:
            self.note_unknown("unmodelled call " + f["path"])
            return self.havoc_call("call " + f["path"], args, st)
        mut = bool(args) and tys[0].startswith("&mut")
        vals = tuple(self.deep(a, st) for a in args)
        if not mut:
            return st, self.typed(mk("call", name, vals), dty)
        st = st.copy()
        ks = tuple(self.ks)
        res = self.typed(mk("res", name, site, ks, vals), dty)
        ev = mk("ev", name, vals, site, ks, "%s %s" % at)
        st.mem[TRACE] = cat(st.mem.get(TRACE, NIL), lit(ev))
        for i, a in enumerate(args):
            if i == 0 or not tys[i].startswith("&mut"):
                continue
            out = mk("evout", name, i, site, ks, vals)
            ty = tys[i].replace("&mut ", "")
            if ty in self.HAVOC_ONLY:
                fi = [n for n, x in enumerate(self.prog.adts[ty]["v"][0]["f"])
                      if short_ty(x["ty"]) == self.HAVOC_ONLY[ty]][0]
                old = self.deep(a, st)
                k = fresh_k()
                nv = comp(length(field(old, fi)), k, idx(out, k))
                self.write_ref(a, set_field(old, fi, nv), st)
            else:
                self.write_ref(a, out, st)
        return st, res

    # ------------------------------------------------------------ loops over iterators
    def loop_over(self, st, it, body, site, extra=None):
        """Drive iterator value `it` to the end.  body(state, item) -> [(tag or None, guard, state)];
        tag None continues.  Returns exits [(tag, guard, state)], tag "done" at the end."""
        root = site + "#it"
        st = st.copy()
        st.mem[root] = it
        for k, v in (extra or {}).items():
            st.mem[k] = v

        def step(s, K):
            back, exits = [], []
            for kind, g, s1, item in self.models.it_next(self, s, root, site):
                if kind == "skip":
                    back.append((g, s1))
                elif kind == "end":
                    exits.append(("done", g, s1))
                else:
                    self.sinks.append([])
                    outs = body(s1, item)
                    ent = self.sinks.pop()
                    self.lifted(ent, lambda c: band(g, c))
                    for tag, g2, s2 in outs:
                        gg = band(g, g2)
                        if gg is FALSE:
                            continue
                        if tag is None:
                            back.append((gg, s2))
                        else:
                            exits.append((tag, gg, s2))
            return back, exits
        return self.summarise(st, step, (None, site))

    # ------------------------------------------------------------ top level
    def analyse(self, fn, args=None, names=None, pre=None, st=None, tsub=None):
        """value graph of a function on symbolic arguments"""
        self.sinks = [[]]
        self.ks = []
        self.loops = []
        self.unknowns = {}
        st = st or State({TRACE: NIL})
        st.mem.setdefault(TRACE, NIL)
        self.globals(st)
        if pre is not None:
            st.facts = band(st.facts, pre)
        vals = []
        for i in range(1, fn.argc + 1):
            if args and args.get(i) is not None:
                v = args[i]
                if fn.local_ty(i)["k"] == "ref" and fn.local_ty(i)["m"] and v.op != "mref":
                    st.mem["arg%d" % i] = v
                    v = mref("arg%d" % i)
                vals.append(v)
                continue
            nm = (names or {}).get(i) or "a%d" % i
            ty = fn.local_ty(i)
            s = self.symbol(nm, ty["t"] if ty["k"] == "ref" else ty)
            if ty["k"] == "ref" and ty["m"]:
                st.mem["arg%d" % i] = s
                vals.append(mref("arg%d" % i))
            else:
                vals.append(s)
        r = self.call_fn(fn, vals, st, "", tsub)
        return self.result(fn, r)

    def analyse_value(self, f, args, pre=None):
        """value graph of applying a function value"""
        self.sinks, self.ks, self.loops, self.unknowns = [[]], [], [], {}
        st = State({TRACE: NIL})
        self.globals(st)
        if pre is not None:
            st.facts = band(st.facts, pre)
        return self.result(None, self.call_value(f, list(args), st, "", ("", "")))

    def globals(self, st):
        """state all objects share: nothing is known about it when a call begins"""
        for s, t in self.prog.shared.items():
            st.mem.setdefault("static " + s, self.symbol("static " + s, t))

    def result(self, fn, r):
        res = Result()
        res.fn = fn
        res.panics = self.sinks[0]
        res.loops = self.loops
        res.unknowns = dict(self.unknowns)
        if r is None:
            res.ret, res.mem, res.facts, res.trace = None, {}, FALSE, NIL
            return res
        s, ret = r
        res.mem = s.mem
        res.facts = s.facts
        res.ret = ret
        res.trace = s.mem.get(TRACE, NIL)
        return res

    def symbol(self, name, ty):
        s = mk("sym", name)
        t = short_ty(ty)
        return mark(s, t)


class Result(object):
    def arg(self, i):
        return self.mem.get("arg%d" % i)

    def may_panic(self):
        r = FALSE
        for c, _, _ in self.panics:
            r = bor(r, c)
        return r


# ---------------------------------------------------------------- helpers
FNTAB = {}


def fnval(f):
    import json
    key = json.dumps(f, sort_keys=True)
    FNTAB[key] = f
    return mk("fn", key)


def fconst(x):
    if x != x:
        return NAN
    if x in (float("inf"), float("-inf")):
        return INF if x > 0 else NINF
    return num(Fraction(x))


def order(lt_, gt_):
    """Ordering value from the conditions less / greater"""
    return ite(lt_, agg(ORD, 0, ()), ite(gt_, agg(ORD, 2, ()), agg(ORD, 1, ())))


def is_variant_n(v, k, n):
    for x in leaves(v):
        if n != 2:
            NVARIANTS[x] = n
    return is_variant(v, k)


def is_variant3(v, k):
    return is_variant_n(v, k, 3)


def vslice(v, lo, hi):
    k = fresh_k()
    return comp(nonneg_part(sub(hi, lo)), k, idx(v, add(k, lo)))

