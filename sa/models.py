"""Semantics of the library functions the analysed code calls (std, num, rand)."""
from terms import *
import terms as tm
import interp
from program import short_ty

ITER = "core::iter::traits::iterator::Iterator"
DEI = "core::iter::traits::double_ended::DoubleEndedIterator"
ESI = "core::iter::traits::exact_size::ExactSizeIterator"
RANGE = "core::ops::range::Range"
RANGE_I = "core::ops::range::RangeInclusive"
ITERS = {RANGE, "$rangeinc", "$siter", "$miter", "$map", "$filter", "$filter_map", "$enumerate", "$zip", "$take",
         "$take_while", "$skip_while", "$inspect", "$map_while", "$repeat", "$repeat_with", "$scan"}


def A(name, *f):
    return agg(name, 0, f)


def it_name(v):
    return v.args[0] if isinstance(v, T) and v.op == "agg" else None


# ================================================================ iterators
def next_val(eng, st, it, site):
    """outcomes [(kind, guard, state, iterator', item)] of one step of a (functional) iterator"""
    if isinstance(it, N):
        res = []
        for c, leaf in eng._targets(it):
            for kind, g, s, i2, x in next_val(eng, st, leaf, site):
                res.append((kind, band(c, g), s, i2, x))
        # merge equal kinds
        out = []
        for kind in ("skip", "item", "end"):
            sel = [(g, s, i2, x) for k, g, s, i2, x in res if k == kind and g is not FALSE]
            if not sel:
                continue
            g, s = eng.merge([(g, s) for g, s, _, _ in sel])
            i2, x = sel[-1][2], sel[-1][3]
            for gg, _, j2, y in reversed(sel[:-1]):
                i2, x = ite(gg, j2, i2), ite(gg, y, x)
            out.append((kind, g, s, i2, x))
        return out
    if it is BOT:
        return []
    if it.op == "mref":
        cur = eng.load(it, st)
        out = []
        for kind, g, s, i2, x in next_val(eng, st, cur, site):
            s = s.copy()
            eng.write_ref(it, i2, s)
            out.append((kind, g, s, it, x))
        return out
    n = it_name(it)
    f = it.args[2] if n else ()
    if n == RANGE:
        c = lt(f[0], f[1], "i")
        return [("item", c, st, A(RANGE, add(f[0], ONE), f[1]), f[0]), ("end", bnot(c), st, it, UNIT)]
    if n == "$rangeinc":
        c = le(f[0], f[1], "i")
        return [("item", c, st, A("$rangeinc", add(f[0], ONE), f[1]), f[0]), ("end", bnot(c), st, it, UNIT)]
    if n == "$siter":
        c = lt(f[1], f[2], "i")
        return [("item", c, st, A(n, f[0], add(f[1], ONE), f[2]), idx(f[0], f[1])), ("end", bnot(c), st, it, UNIT)]
    if n == "$miter":
        c = lt(f[1], f[2], "i")
        m = f[0]
        item = lift(("miter", f[1]), lambda r: interp.mref(r.args[0], r.args[1] + (("i", f[1]),))
                    if r.op == "mref" else unk("mut iterator"), m)
        return [("item", c, st, A(n, m, add(f[1], ONE), f[2]), item), ("end", bnot(c), st, it, UNIT)]
    if n == "$repeat":
        return [("item", TRUE, st, it, f[0])]
    if n == "$repeat_with":
        r = eng.call_value(f[0], [], st, site + "!rw", site_at(site))
        return [("item", TRUE, r[0], it, r[1])] if r else []
    if n in ("$map", "$filter", "$filter_map", "$enumerate", "$take", "$take_while", "$skip_while", "$inspect",
             "$map_while"):
        if n == "$take":
            c = bnot(le(f[1], ZERO, "i"))
            out = [("end", bnot(c), st, it, UNIT)] if c is not TRUE else []
            for kind, g, s, i2, x in next_val(eng, st, f[0], site + ".t"):
                g = band(c, g)
                if g is FALSE:
                    continue
                if kind == "item":
                    out.append(("item", g, s, A(n, i2, sub(f[1], ONE)), x))
                elif kind == "skip":
                    out.append(("skip", g, s, A(n, i2, f[1]), x))
                else:
                    out.append(("end", g, s, A(n, i2, f[1]), x))
            return join_end(eng, out)
        out = []
        for kind, g, s, i2, x in next_val(eng, st, f[0], site + ".i"):
            if kind != "item":
                out.append((kind, g, s, agg(n, 0, (i2,) + f[1:]), x))
                continue
            eng.sinks.append([])
            outs = []
            if n == "$enumerate":
                outs.append(("item", TRUE, s, A(n, i2, add(f[1], ONE)), tup(f[1], x)))
            else:
                clo = f[1]
                r = eng.call_value(clo, [x], s, site + "!c", site_at(site))
                if r is not None:
                    s2, v = r
                    nxt = agg(n, 0, (i2,) + f[1:])
                    if n == "$map":
                        outs.append(("item", TRUE, s2, nxt, v))
                    elif n == "$inspect":
                        outs.append(("item", TRUE, s2, nxt, x))
                    elif n == "$filter":
                        b = boolatom(v) if not interp.is_bool(v) else v
                        outs.append(("item", b, s2, nxt, x))
                        outs.append(("skip", bnot(b), s2, nxt, UNIT))
                    elif n in ("$filter_map", "$map_while"):
                        b = is_variant(v, 1)
                        outs.append(("item", b, s2, nxt, restrict(vfield(v, 1, 0), b)))
                        outs.append(("skip" if n == "$filter_map" else "end", bnot(b), s2, nxt, UNIT))
                    elif n == "$take_while":
                        b = boolatom(v) if not interp.is_bool(v) else v
                        outs.append(("item", b, s2, nxt, x))
                        outs.append(("end", bnot(b), s2, nxt, UNIT))
                    elif n == "$skip_while":
                        b = boolatom(v) if not interp.is_bool(v) else v
                        done = f[2]
                        b = band(b, bnot(done))
                        outs.append(("item", bnot(b), s2, A(n, i2, clo, TRUE), x))
                        outs.append(("skip", b, s2, A(n, i2, clo, done), UNIT))
            ent = eng.sinks.pop()
            eng.lifted(ent, lambda c: band(g, c))
            for kind2, g2, s2, j2, y in outs:
                gg = band(g, g2)
                if gg is not FALSE:
                    out.append((kind2, gg, s2, j2, y))
        return join_end(eng, out)
    if n == "$zip":
        out = []
        for kind, g, s, i2, x in next_val(eng, st, f[0], site + ".l"):
            if kind != "item":
                out.append((kind, g, s, A(n, i2, f[1]), x))
                continue
            for kind2, g2, s2, j2, y in next_val(eng, s, f[1], site + ".r"):
                gg = band(g, g2)
                if gg is FALSE:
                    continue
                if kind2 == "skip":
                    eng.note_unknown("zip with a filtering right side")
                out.append((kind2, gg, s2, A(n, i2, j2), tup(x, y)))
        return join_end(eng, out)
    eng.note_unknown("iterator " + str(n))
    u = mk("res", "iterator", site, tuple(eng.ks))
    c = boolatom(mk("res", "more", site, tuple(eng.ks)))
    return [("item", c, st, it, unk("iterator item", u)), ("end", bnot(c), st, it, UNIT)]


def join_end(eng, out):
    """merge several outcomes of kind end / skip into one each"""
    res = []
    for kind in ("item", "skip", "end"):
        sel = [o for o in out if o[0] == kind]
        if len(sel) <= 1:
            res += sel
            continue
        g, s = eng.merge([(o[1], o[2]) for o in sel])
        i2, x = sel[-1][3], sel[-1][4]
        for o in reversed(sel[:-1]):
            i2, x = ite(o[1], o[3], i2), ite(o[1], o[4], x)
        res.append((kind, g, s, restrict(i2, g), restrict(x, g)))
    return res


def it_next(eng, st, root, site):
    out = []
    for kind, g, s, i2, x in next_val(eng, st, st.mem[root], site):
        s = s.copy()
        s.mem[root] = i2
        out.append((kind, g, s, x))
    return out


def site_at(site):
    return (site, "")


def exact_len(it):
    n = it_name(it)
    if n is None:
        return None
    f = it.args[2]
    if n == RANGE:
        return nonneg_part(sub(f[1], f[0]))
    if n == "$rangeinc":
        return nonneg_part(add(sub(f[1], f[0]), ONE))
    if n in ("$siter", "$miter"):
        return nonneg_part(sub(f[2], f[1]))
    if n in ("$map", "$enumerate", "$inspect"):
        return exact_len(f[0])
    if n == "$zip":
        a, b = exact_len(f[0]), exact_len(f[1])
        if a is None or b is None:
            return None
        if a is INFN:
            return b
        if b is INFN:
            return a
        return imin(a, b)
    if n == "$take":
        a = exact_len(f[0])
        return None if a is None else f[1] if a is INFN else imin(a, f[1])
    if n in ("$repeat", "$repeat_with"):
        return INFN
    return None


def option_seq(v, p):
    """an option, or the success of a result, as a sequence"""
    w = 1 if p == OPT else 0
    return ite(is_variant(v, w), lit(vfield(v, w, 0)), NIL)


# sets of numbers: the distinct elements in the order of their arrival
SETS = {"$bset": "alloc::collections::btree::set::BTreeSet", "$hset": "std::collections::hash::set::HashSet"}
OTHER = ("alloc::collections::btree::map::", "std::collections::hash::map::", "alloc::collections::binary_heap::",
         "alloc::collections::linked_list::")


def set_kind(ty):
    return next((k for k, p in SETS.items() if ty.startswith(p)), None)


def set_items(kind, v):
    """the order in which a set is walked"""
    if kind == "$hset":
        return unk("order of a hash set", v)
    p, q = fresh_phi("x"), fresh_phi("y")
    return sortby(v, p, q, interp.order(lt(p, q, "i"), lt(q, p, "i")))


def countable(t):
    """a type of which equality is equality of numbers"""
    t = strip(t)
    if t["k"] == "prim":
        return t["n"] in tm.WIDTH or t["n"] == "bool"
    return t["k"] == "tuple" and all(countable(x) for x in t["a"])


def set_of(f, kind):
    """element type of the set a call deals with"""
    for t in f.get("targs") or []:
        t = strip(t)
        if t["k"] == "adt" and set_kind(t["p"]) == kind and t.get("a"):
            return t["a"][0]
    if set_kind(f["path"]) and f.get("targs"):
        return f["targs"][0]
    return None


def set_usable(kind, t):
    return t is not None and countable(t) and (kind == "$hset" or strip(t)["k"] == "prim" and strip(t)["n"] != "bool")


def set_add(eng, t, v, x):
    k = fresh_k()
    had = anyq(length(v), k, eq_ty(eng, t, idx(v, k), x))
    return had, ite(had, v, cat(v, lit(x)))


def set_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    kind = set_kind(f["path"])
    t = set_of(f, kind)
    if not set_usable(kind, t):
        return unmodelled(eng, f, args, st)
    if name in ("new", "with_capacity", "default"):
        return st, A(kind, NIL)
    s = eng.deep(args[0], st) if args else None
    if not isinstance(s, T) or it_name(s) != kind:
        return unmodelled(eng, f, args, st)
    v = s.args[2][0]
    if name == "insert":
        had, w = set_add(eng, t, v, eng.deep(args[1], st))
        return into_place(eng, args[0], A(kind, w), st)[0], bnot(had)
    if name == "contains":
        return st, set_add(eng, t, v, eng.deep(args[1], st))[0]
    if name == "len":
        return st, length(v)
    if name == "is_empty":
        return st, le0(length(v))
    if name == "clear":
        return into_place(eng, args[0], A(kind, NIL), st)
    if name == "iter":
        return st, to_iter(eng, s, st)
    return unmodelled(eng, f, args, st)


def to_set(eng, f, kind, st, it, site, start=NIL):
    root, t = site + "#set", set_of(f, kind)
    if not set_usable(kind, t):
        return unmodelled(eng, f, [it], st)

    def body(s, x):
        s = s.copy()
        s.mem[root] = set_add(eng, t, s.mem[root], eng.deep(x, s))[1]
        return [(None, TRUE, s)]
    r = finish(eng, eng.loop_over(st, it, body, site, {root: start}), site, [root])
    return r and (r[0], A(kind, r[1][0]))


def to_iter(eng, v, st, ty=None):
    """IntoIterator::into_iter for any value"""
    if isinstance(v, N):
        return lift(("toiter", id(st), next(tm._fresh)), lambda x: to_iter(eng, x, st, ty), v)
    if v is BOT:
        return v
    n = it_name(v)
    if n in ITERS:
        return v
    if n in SETS:
        w = set_items(n, v.args[2][0])
        return A("$siter", w, ZERO, length(w))
    if v.op == "mref" and ty is not None and strip(ty)["k"] == "adt" and strip(ty)["p"] in (OPT, RES):
        cur = eng.load(v, st)
        eng.note_unknown("iteration over a mutable reference to an option")
        return unk("option iterator", cur)
    if n == OPT:
        return A("$siter", lit(v.args[2][0]) if v.args[1] == 1 else NIL, ZERO, num(v.args[1]))
    if ty is not None and strip(ty)["k"] == "adt" and strip(ty)["p"] in (OPT, RES):
        return to_iter(eng, option_seq(v, strip(ty)["p"]), st)
    if v.op == "mref":
        cur = eng.load(v, st)
        if any(it_name(x) in ITERS for x in leaves(cur)):
            return v
        if any(it_name(x) in SETS for x in leaves(cur)):
            return to_iter(eng, cur, st, ty)
        if any(x.op == "mref" for x in leaves(cur)):
            return to_iter(eng, cur, st, ty)
        return A("$miter", v, ZERO, length(cur))
    return A("$siter", v, ZERO, length(v))


def materialise(eng, st, it, site):
    """(state, vector of all remaining items)"""
    n = it_name(it)
    if n == "$siter":
        f = it.args[2]
        if f[1] is ZERO and f[2] is length(f[0]):
            return st, f[0]
        return st, interp.vslice(f[0], f[1], f[2])
    root = site + "#col"

    def body(s, x):
        s = s.copy()
        s.mem[root] = cat(s.mem[root], lit(x))
        return [(None, TRUE, s)]
    outs = eng.loop_over(st, it, body, site + "#m", {root: NIL})
    r = finish(eng, outs, site + "#m", [root])
    if r is None:
        return None
    s, (v,) = r
    return s, v


def finish(eng, outs, site, roots):
    outs = [(g, s) for tag, g, s in outs if g is not FALSE]
    if not outs:
        return None
    g, s = eng.merge(outs)
    s = s.copy()
    vals = []
    for r in roots:
        vals.append(s.mem.pop(r, BOT))
    eng.rest = s.mem.pop(site + "#it", None)          # where the iterator stands
    return s, vals


def advance(eng, st, it, n, site):
    k = it_name(it)
    f = it.args[2] if k else ()
    if k == RANGE:
        return st, A(RANGE, imin(add(f[0], n), imax(f[0], f[1])), f[1])
    if k in ("$siter", "$miter"):
        return st, A(k, f[0], imin(add(f[1], n), f[2]), f[2])
    if k == "$enumerate":
        r = advance(eng, st, f[0], n, site)
        return r and (r[0], A(k, r[1], add(f[1], n)))
    if k == "$zip":
        a = advance(eng, st, f[0], n, site)
        b = a and advance(eng, a[0], f[1], n, site)
        return b and (b[0], A(k, a[1], b[1]))
    if k == "$map":
        r = advance(eng, st, f[0], n, site)
        return r and (r[0], A(k, r[1], f[1]))
    r = materialise(eng, st, it, site + "#adv")
    return r and advance(eng, r[0], A("$siter", r[1], ZERO, length(r[1])), n, site)


def reverse_it(eng, st, it, site):
    n = it_name(it)
    f = it.args[2] if n else ()
    if n == "$miter":
        # positions counted from the back
        cl = tm.fresh_k("r")
        ln = nonneg_part(sub(f[2], f[1]))
        seq = comp(ln, cl, lift("rm", lambda r: interp.mref(r.args[0], r.args[1] + (("i", sub(sub(f[2], ONE), cl)),)),
                                f[0]))
        return st, A("$siter", seq, ZERO, ln)
    r = materialise(eng, st, it, site + "#rev")
    if r is None:
        return None
    st, v = r
    k = fresh_k()
    n = length(v)
    w = comp(n, k, idx(v, sub(sub(n, ONE), k)))
    return st, A("$siter", w, ZERO, n)


def simple_it(it):
    """values of iterator kind (not references)"""
    return it_name(it) in ITERS


# ---------------------------------------------------------------- consumers
def c_for_each(eng, st, it, args, site, at):
    def body(s, x):
        r = eng.call_value(args[0], [x], s, site + "!f", at)
        return [(None, TRUE, r[0])] if r else []
    r = finish(eng, eng.loop_over(st, it, body, site), site, [])
    return r and (r[0], UNIT)


def c_fold(eng, st, it, args, site, at):
    root = site + "#acc"

    def body(s, x):
        r = eng.call_value(args[1], [s.mem[root], x], s, site + "!f", at)
        if r is None:
            return []
        s2 = r[0].copy()
        s2.mem[root] = r[1]
        return [(None, TRUE, s2)]
    r = finish(eng, eng.loop_over(st, it, body, site, {root: args[0]}), site, [root])
    return r and (r[0], r[1][0])


def c_accumulate(step, init):
    def f(eng, st, it, args, site, at):
        root = site + "#acc"

        def body(s, x):
            s = s.copy()
            s.mem[root] = step(s.mem[root], eng.deep(x, s))
            return [(None, TRUE, s)]
        r = finish(eng, eng.loop_over(st, it, body, site, {root: init}), site, [root])
        return r and (r[0], r[1][0])
    return f


c_count = c_accumulate(lambda a, x: add(a, ONE), ZERO)
c_sum = c_accumulate(lambda a, x: add(a, x), ZERO)
c_product = c_accumulate(lambda a, x: mul(a, x), ONE)


def c_search(kind):
    """any, all, find, position, find_map"""
    def f(eng, st, it, args, site, at):
        pos = site + "#pos"
        out = site + "#out"
        init = {"any": FALSE, "all": TRUE}.get(kind, NONE)

        def body(s, x):
            r = eng.call_value(args[0], [x], s, site + "!p", at)
            if r is None:
                return []
            s2, v = r
            if kind == "find_map":
                hit = is_variant(v, 1)
            else:
                hit = v if interp.is_bool(v) else boolatom(v)
                if kind == "all":
                    hit = bnot(hit)
            a, b = s2.copy(), s2.copy()
            a.mem[out] = {"any": TRUE, "all": FALSE, "find": some(x), "position": some(s2.mem[pos]),
                          "find_map": restrict(v, hit)}[kind]
            b.mem[pos] = add(b.mem[pos], ONE)
            return [("hit", hit, a), (None, bnot(hit), b)]
        r = finish(eng, eng.loop_over(st, it, body, site, {pos: ZERO, out: init}), site, [pos, out])
        return r and (r[0], r[1][1])
    return f


def order_of(eng, args, key, st, site, at, cmp_):
    p, q = fresh_phi("x"), fresh_phi("y")
    if cmp_ == "ord":
        return p, q, interp.order(lt(p, q, "i"), lt(q, p, "i"))
    if cmp_ == "by":
        r = eng.call_value(args[0], [p, q], st, site + "!cmp", at)
        v = r[1] if r else None
    else:
        a = eng.call_value(args[0], [p], st, site + "!k1", at)
        b = eng.call_value(args[0], [q], st, site + "!k2", at)
        v = None
        if a and b:
            v = interp.order(lt(a[1], b[1]), lt(b[1], a[1]))
    return p, q, v


def c_extreme(which, cmp_):
    def f(eng, st, it, args, site, at):
        r = materialise(eng, st, it, site + "#ext")
        if r is None:
            return None
        st, v = r
        # the comparator's panics: for some pair of elements
        eng.sinks.append([])
        p, q, o = order_of(eng, args, None, st, site, at, cmp_)
        ent = eng.sinks.pop()
        pair_panics(eng, ent, v, p, q)
        if o is None:
            return None
        m = (minby if which == "min" else maxby)(v, p, q, o)
        return st, ite(le0(length(v)), NONE, some(m))
    return f


def pair_panics(eng, ent, v, p, q):
    for c, s, what in ent:
        i, j = fresh_k(), fresh_k()
        n = length(v)
        c = subst(c, {p: idx(v, i), q: idx(v, j)})
        c = anyq(n, i, anyq(n, j, band(c, bnot(eqn(i, j, "i")))))
        if c is not FALSE:
            eng.sinks[-1].append((c, s, what))


def c_collect(eng, st, it, args, site, at, dty, f):
    if dty.startswith("core::option::Option") or dty.startswith("core::result::Result"):
        col, out = site + "#col", site + "#out"
        isopt = "Option" in dty

        def body(s, x):
            ok = is_variant(x, 1 if isopt else 0)
            a, b = s.copy(), s.copy()
            a.mem[col] = cat(a.mem[col], lit(restrict(vfield(x, 1 if isopt else 0, 0), ok)))
            b.mem[out] = restrict(x, bnot(ok))
            return [(None, ok, a), ("brk", bnot(ok), b)]
        outs = eng.loop_over(st, it, body, site, {col: NIL, out: BOT})
        done = []
        for tag, g, s in outs:
            s = s.copy()
            if tag == "done":
                s.mem[out] = agg(OPT if isopt else RES, 1 if isopt else 0, (s.mem[col],))
            done.append((tag, g, s))
        r = finish(eng, done, site, [out, col])
        return r and (r[0], r[1][0])
    if set_kind(dty):
        return to_set(eng, f, set_kind(dty), st, it, site)
    if dty.startswith(OTHER):
        return unmodelled(eng, {"path": "collect into " + dty}, [it], st)
    return materialise(eng, st, it, site)


def c_last(eng, st, it, args, site, at):
    r = materialise(eng, st, it, site)
    if r is None:
        return None
    st, v = r
    n = length(v)
    return st, ite(le0(n), NONE, some(idx(v, sub(n, ONE))))


def c_try(kind):
    """try_fold, try_for_each: the first break, None or Err ends the loop and is the result"""
    def f(eng, st, it, args, site, at, dty="?"):
        acc, out = site + "#acc", site + "#out"
        fam = (("core::option::Option", OPT, 1), ("core::result::Result", RES, 0),
               ("core::ops::control_flow::ControlFlow", "core::ops::control_flow::ControlFlow", 0))
        fam = [x for x in fam if dty.startswith((x[0], x[0].replace("core::", "std::"), x[0].split("::")[-1]))]
        if not fam:
            return unmodelled(eng, {"path": kind}, [it] + list(args), st)
        _, adt, good = fam[0]

        def body(s, x):
            r = eng.call_value(args[-1], ([s.mem[acc]] if kind == "try_fold" else []) + [x], s, site + "!f", at)
            if r is None:
                return []
            ok = is_variant(r[1], good)
            a, b = r[0].copy(), r[0].copy()
            if kind == "try_fold":
                a.mem[acc] = restrict(vfield(r[1], good, 0), ok)
            b.mem[out] = restrict(r[1], bnot(ok))
            return [(None, ok, a), ("brk", bnot(ok), b)]
        outs = eng.loop_over(st, it, body, site, {acc: args[0] if kind == "try_fold" else UNIT, out: BOT})
        done = []
        for tag, g, s in outs:
            s = s.copy()
            if tag == "done":
                s.mem[out] = agg(adt, good, (s.mem[acc],))
            done.append((tag, g, s))
        r = finish(eng, done, site, [out, acc])
        return r and (r[0], r[1][0])
    return f


def c_mirrored(kind):
    """rfind, rposition, rfold"""
    def f(eng, st, it, args, site, at):
        n = exact_len(it) if isinstance(it, T) else None
        if kind == "rposition" and (n is None or n is INFN):
            return unmodelled(eng, {"path": kind}, [it] + list(args), st)
        r = reverse_it(eng, st, it, site + "#mir")
        if r is None:
            return None
        r = {"rfind": c_search("find"), "rposition": c_search("position"), "rfold": c_fold}[kind](
            eng, r[0], r[1], args, site, at)
        if r is None or kind != "rposition":
            return r
        return r[0], ite(is_variant(r[1], 1), some(sub(sub(n, ONE), vfield(r[1], 1, 0))), NONE)
    return f


def c_reduce(eng, st, it, args, site, at):
    r = materialise(eng, st, it, site + "#r")
    if r is None:
        return None
    st, v = r
    n = length(v)
    e = le0(n)
    rest = A("$siter", v, ONE, n)
    r = c_fold(eng, st, rest, [idx(v, ZERO), args[0]], site, at)
    return r and (r[0], ite(e, NONE, some(r[1])))


def c_unzip(eng, st, it, args, site, at):
    r = materialise(eng, st, it, site)
    if r is None:
        return None
    st, v = r
    k = fresh_k()
    n = length(v)
    return st, tup(comp(n, k, field(idx(v, k), 0)), comp(n, k, field(idx(v, k), 1)))


def c_partition(eng, st, it, args, site, at):
    a, b = site + "#a", site + "#b"

    def body(s, x):
        r = eng.call_value(args[0], [x], s, site + "!p", at)
        if r is None:
            return []
        s2, v = r
        hit = v if interp.is_bool(v) else boolatom(v)
        s3 = s2.copy()
        s3.mem[a] = cat(s3.mem[a], ite(hit, lit(x), NIL))
        s3.mem[b] = cat(s3.mem[b], ite(hit, NIL, lit(x)))
        return [(None, TRUE, s3)]
    r = finish(eng, eng.loop_over(st, it, body, site, {a: NIL, b: NIL}), site, [a, b])
    return r and (r[0], tup(*r[1]))


CONSUMERS = {
    "for_each": c_for_each, "fold": c_fold, "count": c_count, "sum": c_sum, "product": c_product,
    "any": c_search("any"), "all": c_search("all"), "find": c_search("find"), "position": c_search("position"),
    "find_map": c_search("find_map"), "min_by": c_extreme("min", "by"), "max_by": c_extreme("max", "by"),
    "min_by_key": c_extreme("min", "key"), "max_by_key": c_extreme("max", "key"),
    "min": c_extreme("min", "ord"), "max": c_extreme("max", "ord"),
    "rfind": c_mirrored("rfind"), "rposition": c_mirrored("rposition"), "rfold": c_mirrored("rfold"),
    "last": c_last, "reduce": c_reduce, "unzip": c_unzip, "partition": c_partition,
}


def iter_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    self_ = args[0]
    if name == "next":
        out = []
        for kind, g, s, i2, x in next_val(eng, st, self_, site):
            s = s.copy()
            out.append((kind, g, s, some(x) if kind == "item" else NONE))
        if isinstance(self_, T) and self_.op != "mref" or not out:
            pass
        if any(o[0] == "skip" for o in out):
            # merge item and end
            sk = [o for o in out if o[0] == "skip"]
            ot = [o for o in out if o[0] != "skip"]
            g, s = eng.merge([(o[1], o[2]) for o in ot])
            v = ot[-1][3]
            for o in reversed(ot[:-1]):
                v = ite(o[1], o[3], v)
            return [("skip", o[1], o[2], None) for o in sk] + [("item", g, s, restrict(v, g))]
        if not out:
            return None
        g, s = eng.merge([(o[1], o[2]) for o in out])
        v = out[-1][3]
        for o in reversed(out[:-1]):
            v = ite(o[1], o[3], v)
        return s, v
    it = self_
    if name in ("by_ref",):
        return st, it
    if isinstance(it, T) and it.op == "mref":
        cur = eng.load(it, st)
        while interp.is_mref(cur) and isinstance(cur, T):
            self_, cur = cur, eng.load(cur, st)
        if not (isinstance(cur, T) and it_name(cur) in ITERS):
            it = cur
        elif name not in ("len", "size_hint", "nth", "next_back"):
            # the iterator stays with the caller, who may go on with it
            if name in ("any", "all", "find", "position", "find_map"):
                r = CONSUMERS[name](eng, st, cur, args[1:], site, at)
                if r is None:
                    return None
                s = r[0].copy()
                eng.write_ref(self_, eng.rest, s)
                return s, r[1]
            st = st.copy()
            r = advance(eng, st, cur, args[1], site) if name == "take" else None
            eng.write_ref(self_, r[1] if r else unk("iterator used by reference", cur), st)
            it = cur
    it = to_iter(eng, it, st)
    if isinstance(it, N) and name not in ("map", "filter", "filter_map", "enumerate", "zip", "take", "cloned", "copied",
                                          "inspect"):
        pass
    if name in ("cloned", "copied", "fuse", "into_iter"):
        return st, it
    if name == "peekable":
        r = materialise(eng, st, it, site)
        return r and (r[0], A("$siter", r[1], ZERO, length(r[1])))
    if name in ("map", "filter", "filter_map", "inspect", "take_while", "map_while"):
        return st, lift(("ad", name, args[1]), lambda x: agg("$" + name, 0, (x, args[1])), it)
    if name == "skip_while":
        return st, A("$skip_while", it, args[1], FALSE)
    if name == "enumerate":
        return st, A("$enumerate", it, ZERO)
    if name == "zip":
        return st, A("$zip", it, to_iter(eng, args[1], st))
    if name == "take":
        n = exact_len(it) if isinstance(it, T) else None
        if n is not None and n is not INFN and it_name(it) in ("$siter", "$miter", RANGE):
            x = it.args[2]
            if it_name(it) == RANGE:
                return st, A(RANGE, x[0], add(x[0], imin(n, args[1])))
            return st, agg(it_name(it), 0, (x[0], x[1], add(x[1], imin(n, args[1]))))
        return st, A("$take", it, args[1])
    if name == "skip":
        return advance(eng, st, it, args[1], site)
    if name == "rev":
        return reverse_it(eng, st, it, site)
    if name == "chain":
        a = materialise(eng, st, it, site + "#a")
        b = a and materialise(eng, a[0], to_iter(eng, args[1], a[0]), site + "#b")
        if not b:
            return None
        v = cat(a[1], b[1])
        return b[0], A("$siter", v, ZERO, length(v))
    if name in ("flat_map", "flatten"):
        ity = f.get("item")
        if name == "flat_map":
            it = A("$map", it, args[1])
            ity = (f.get("targs") or [None, None])[1]
        root = site + "#col"

        def body(s, x):
            y = eng.deep(x, s) if not interp.is_mref(x) else x
            i2 = to_iter(eng, y, s, ity)
            r = materialise(eng, s, i2, site + "#in")
            if r is None:
                return []
            s2 = r[0].copy()
            s2.mem[root] = cat(s2.mem[root], r[1])
            return [(None, TRUE, s2)]
        r = finish(eng, eng.loop_over(st, it, body, site, {root: NIL}), site, [root])
        if r is None:
            return None
        v = r[1][0]
        return r[0], A("$siter", v, ZERO, length(v))
    if name == "step_by":
        r = materialise(eng, st, it, site)
        if r is None:
            return None
        st, v = r
        k = fresh_k()
        n = intdiv("idiv", add(length(v), sub(args[1], ONE)), args[1])
        tm.UINTS.update(x for x in leaves(n) if x.op != "num")
        w = comp(n, k, idx(v, mul(k, args[1])))
        return st, A("$siter", w, ZERO, n)
    if name == "collect":
        return c_collect(eng, st, it, args[1:], site, at, dty, f)
    if name == "nth":
        r = advance(eng, st, it, args[1], site)
        if r is None:
            return None
        st, it2 = r
        n = exact_len(it2)
        if n is None:
            return unmodelled(eng, f, args, st)
        outs = next_val(eng, st, it2, site)
        v = NONE
        for kind, g, s, i2, x in outs:
            if kind == "item":
                v = ite(g, some(x), v)
        if interp.is_mref(self_):
            st = st.copy()
            nx = [o[3] for o in outs if o[0] == "item"]
            if nx:
                eng.write_ref(self_, nx[0], st)
        return st, v
    if name in ("len", "size_hint"):
        n = exact_len(it) if isinstance(it, T) else None
        if n is None or name != "len":
            return unmodelled(eng, f, args, st)
        return st, n
    if name == "next_back":
        if it_name(it) in ("$siter", RANGE) and interp.is_mref(self_):
            x = it.args[2]
            if it_name(it) == RANGE:
                c = lt(x[0], x[1], "i")
                v = ite(c, some(sub(x[1], ONE)), NONE)
                new = A(RANGE, x[0], ite(c, sub(x[1], ONE), x[1]))
            else:
                c = lt(x[1], x[2], "i")
                v = ite(c, some(idx(x[0], sub(x[2], ONE))), NONE)
                new = A("$siter", x[0], x[1], ite(c, sub(x[2], ONE), x[2]))
            st = st.copy()
            eng.write_ref(self_, new, st)
            return st, v
        return unmodelled(eng, f, args, st)
    if name in ("try_fold", "try_for_each"):
        return c_try(name)(eng, st, it, args[1:], site, at, dty)
    if name in CONSUMERS:
        return CONSUMERS[name](eng, st, it, args[1:], site, at)
    if name in ("eq", "ne"):
        a = materialise(eng, st, it, site + "#a")
        b = a and materialise(eng, a[0], to_iter(eng, args[1], a[0]), site + "#b")
        if not b:
            return None
        e = veq(a[1], b[1], lambda x, y: eqn(x, y))
        return b[0], e if name == "eq" else bnot(e)
    return unmodelled(eng, f, args, st)


def unmodelled(eng, f, args, st):
    eng.note_unknown("unmodelled call " + f["path"])
    return eng.havoc_call("call " + f["path"], args, st)


def veq(a, b, e):
    k = fresh_k()
    n = length(a)
    return band(eqn(n, length(b), "i"), bnot(anyq(n, k, bnot(e(idx(a, k), idx(b, k))))))


# ================================================================ equality and order by type
def strip(t):
    while t["k"] == "ref":
        t = t["t"]
    return t


def eq_ty(eng, t, a, b):
    t = strip(t)
    k = t["k"]
    if k == "prim":
        if t["n"] in ("f64", "f32"):
            return eqn(a, b, "f")
        if t["n"] == "bool":
            a = a if interp.is_bool(a) else boolatom(a)
            b = b if interp.is_bool(b) else boolatom(b)
            return ite(a, b, bnot(b))
        if t["n"] == "str":
            return bool_(True) if a is b else boolatom(mk("eq", a, b))
        return eqn(a, b, "i")
    if k == "param":
        return eqn(a, b)
    if k == "adt":
        if t["p"] == OPT:
            sa, sb = is_variant(a, 1), is_variant(b, 1)
            inner = eq_ty(eng, t["a"][0], vfield(a, 1, 0), vfield(b, 1, 0))
            return ite(sa, band(sb, restrict(inner, band(sa, sb))), bnot(sb)) if inner is not BOT else \
                ite(sa, sb, bnot(sb))
        if t["p"] == interp.ORD:
            r = FALSE
            for i in range(3):
                r = bor(r, band(interp.is_variant3(a, i), interp.is_variant3(b, i)))
            return r
        if t["p"] == "alloc::vec::Vec":
            return veq(a, b, lambda x, y: eq_ty(eng, t["a"][0], x, y))
        ad = eng.prog.adts.get(t["p"])
        if ad and len(ad["v"]) > 1 and all(not v["f"] for v in ad["v"]):
            n = len(ad["v"])
            r = FALSE
            for i in range(n):
                r = bor(r, band(interp.is_variant_n(a, i, n), interp.is_variant_n(b, i, n)))
            return r
    if k in ("slice", "array"):
        return veq(a, b, lambda x, y: eq_ty(eng, t["t"], x, y))
    if k == "tuple":
        r = TRUE
        for i, x in enumerate(t["a"]):
            r = band(r, eq_ty(eng, x, field(a, i), field(b, i)))
        return r
    return lift("eq", lambda x, y: TRUE if x is y else node(atom("b", mk("eq", x, y)), TRUE, FALSE), a, b)


def cmp_kind(t):
    t = strip(t)
    if t["k"] == "prim" and t["n"] in tm.WIDTH:
        return "i"
    return "f"


def asbool(v):
    return v if interp.is_bool(v) else boolatom(v)


def cmp_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    t = (f.get("targs") or [{"k": "param", "n": "?"}])[0]
    tg = eng.target(f)
    if tg is not None:
        return eng.call_fn(tg[0], args, st, site, tg[1])
    a, b = eng.deep(args[0], st), eng.deep(args[1], st)
    if name == "eq":
        return st, eq_ty(eng, t, a, b)
    if name == "ne":
        return st, bnot(eq_ty(eng, t, a, b))
    s = strip(t)
    if s["k"] == "prim" and s["n"] == "bool":
        a, b = asbool(a), asbool(b)
        l, g = band(bnot(a), b), band(a, bnot(b))
    elif s["k"] in ("prim", "param"):
        kd = cmp_kind(t)
        l, g = lt(a, b, kd), lt(b, a, kd)
    else:
        return unmodelled(eng, f, args, st)
    flt = s["k"] == "param" or s.get("n") in ("f64", "f32")
    if name == "lt":
        return st, l
    if name == "gt":
        return st, g
    if name == "le":
        return st, bor(l, eqn(a, b, cmp_kind(t)))
    if name == "ge":
        return st, bor(g, eqn(a, b, cmp_kind(t)))
    if name == "partial_cmp":
        o = some(interp.order(l, g))
        if flt:
            o = ite(bor(is_nan(a), is_nan(b)), NONE, o)
        return st, o
    if name == "cmp":
        return st, interp.order(l, g)
    if name == "max":
        return st, ite(g, a, b)
    if name == "min":
        return st, ite(g, b, a)
    if name == "clamp":
        eng.panic(st, lt(args[2], args[1], "i"), at, "clamp")
        c = eng.deep(args[2], st)
        return st, ite(l, b, ite(lt(c, a, "i"), c, a))
    return unmodelled(eng, f, args, st)


# ================================================================ sequences
def seq(eng, v, st):
    return eng.deep(v, st)


def deque_method(eng, f, args, tys, st, site, at, dty):
    """a double-ended queue is a sequence, too"""
    name = f["name"]
    if name in ("push_back", "pop_back", "front", "back", "front_mut", "back_mut"):
        name = {"push_back": "push", "pop_back": "pop", "front": "first", "back": "last", "front_mut": "first_mut",
                "back_mut": "last_mut"}[name]
    elif name in ("push_front", "pop_front"):
        v = eng.deep(args[0], st)
        if name == "push_front":
            return into_place(eng, args[0], cat(lit(eng.deep(args[1], st)), v), st)
        s, _ = into_place(eng, args[0], ite(le0(length(v)), v, interp.vslice(v, ONE, length(v))), st)
        return s, ite(le0(length(v)), NONE, some(idx(v, ZERO)))
    elif name in ("swap_remove_back", "swap_remove_front", "remove", "as_slices", "as_mut_slices", "binary_search",
                  "resize", "range", "range_mut", "truncate_front", "pop_front_if", "pop_back_if"):
        return unmodelled(eng, f, args, st)
    return vec_method(eng, dict(f, name=name), args, tys, st, site, at, dty)


def vec_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    if name in ("new", "with_capacity", "default"):
        return st, NIL
    r0 = args[0] if args else None
    v = eng.deep(r0, st) if r0 is not None else None

    def put(x):
        s = st.copy()
        r = r0
        # references to references
        while interp.is_mref(eng.load(r, s)):
            r = eng.load(r, s)
        eng.write_ref(r, x, s)
        return s

    def refto(i, kind="i"):
        def g(r):
            if r.op != "mref":
                return idx(r, i)
            cur = eng.load(r, st)
            if interp.is_mref(cur):
                return lift(("rt2", i), g, cur)
            return interp.mref(r.args[0], r.args[1] + (("i", i),))
        return lift(("refto", i, next(tm._fresh)), g, r0)
    n = length(v) if v is not None and not (isinstance(v, T) and v.op == "agg" and v.args[0] not in ITERS
                                            and False) else None
    if name == "len":
        if any(it_name(x) in ITERS for x in leaves(v)):
            e = exact_len(v)
            if e is not None:
                return st, e
        return st, n
    if name == "is_empty":
        return st, le0(n)
    if name in ("as_slice", "as_mut_slice", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut",
                "into_boxed_slice", "into_vec", "as_str", "as_bytes", "into_bytes", "as_mut_ptr", "into_boxed_str"):
        return st, r0
    if name in ("to_vec", "clone", "to_owned", "to_string", "into_string", "cloned"):
        return st, v
    if name == "push":
        return put(cat(v, lit(args[1]))), UNIT
    if name == "pop":
        e = le0(n)
        return put(ite(e, v, take(v, sub(n, ONE)))), ite(e, NONE, some(idx(v, sub(n, ONE))))
    if name == "clear":
        return put(NIL), UNIT
    if name == "truncate":
        return put(take(v, imin(args[1], n))), UNIT
    if name in ("append",):
        o = eng.deep(args[1], st)
        s = put(cat(v, o))
        r = args[1]
        eng.write_ref(r, NIL, s)
        return s, UNIT
    if name in ("extend_from_slice",):
        return put(cat(v, eng.deep(args[1], st))), UNIT
    if name == "insert":
        i = args[1]
        eng.panic(st, lt(n, i, "i"), at, "insertion index out of bounds")
        return put(cat(take(v, i), lit(args[2]), interp.vslice(v, i, n))), UNIT
    if name in ("remove", "swap_remove"):
        i = args[1]
        bad = le(n, i, "i")
        eng.panic(st, bad, at, "removal index out of bounds")
        st.facts = band(st.facts, bnot(bad))
        x = idx(v, i)
        if name == "remove":
            return put(cat(take(v, i), interp.vslice(v, add(i, ONE), n))), x
        k = fresh_k()
        m = sub(n, ONE)
        return put(comp(m, k, ite(eqn(k, i, "i"), idx(v, m), idx(v, k)))), x
    if name == "swap":
        i, j = args[1], args[2]
        eng.panic(st, bor(le(n, i, "i"), le(n, j, "i")), at, "index out of bounds")
        a, b = idx(v, i), idx(v, j)
        return put(upd(upd(v, i, b), j, a)), UNIT
    if name == "reverse":
        k = fresh_k()
        return put(comp(n, k, idx(v, sub(sub(n, ONE), k)))), UNIT
    if name in ("rotate_left", "rotate_right"):
        i = args[1]
        eng.panic(st, lt(n, i, "i"), at, "rotation beyond the length")
        i = i if name == "rotate_left" else sub(n, i)
        return put(cat(interp.vslice(v, i, n), take(v, i))), UNIT
    if name in ("fill",):
        k = fresh_k()
        return put(comp(n, k, args[1])), UNIT
    if name == "resize":
        k = fresh_k()
        m = args[1]
        return put(ite(le(m, n, "i"), take(v, m), cat(v, comp(nonneg_part(sub(m, n)), k, args[2])))), UNIT
    if name == "resize_with":
        m = args[1]
        root = site + "#col"
        grown = A(RANGE, ZERO, nonneg_part(sub(m, n)))

        def more(s, x):
            r = eng.call_value(args[2], [], s, site + "!g", at)
            if r is None:
                return []
            s2 = r[0].copy()
            s2.mem[root] = cat(s2.mem[root], lit(r[1]))
            return [(None, TRUE, s2)]
        r = finish(eng, eng.loop_over(st, grown, more, site, {root: NIL}), site, [root])
        if r is None:
            return None
        s, (w,) = r
        return into_place(eng, r0, ite(le(m, n, "i"), take(v, m), cat(v, w)), s)
    if name in ("sort_by", "sort_unstable_by", "sort_by_key", "sort", "sort_unstable", "sort_by_cached_key",
                "sort_unstable_by_key"):
        eng.sinks.append([])
        kind = "key" if "key" in name else "by" if "by" in name else "ord"
        p, q, o = order_of(eng, args[1:], None, st, site, at, kind)
        ent = eng.sinks.pop()
        pair_panics(eng, ent, v, p, q)
        if o is None:
            return None
        return put(sortby(v, p, q, o)), UNIT
    if name == "dedup":
        # equality of the elements is taken to be transitive: an element goes exactly when it equals the one before it
        k = fresh_k()
        t = (f.get("targs") or [{"k": "param", "n": "?"}])[0]
        x, y = idx(v, sub(k, ONE)), idx(v, k)
        gone = band(bnot(le0(k)), restrict(eq_ty(eng, t, x, y), bnot(le0(k))))
        return put(flat(n, k, ite(gone, NIL, lit(y)))), UNIT
    if name.startswith("select_nth_unstable"):
        # a full sort is one of the permitted results
        eng.panic(st, le(n, args[1], "i"), at, "index out of bounds")
        eng.sinks.append([])
        kind = "key" if "key" in name else "by" if "by" in name else "ord"
        p, q, o = order_of(eng, args[2:], None, st, site, at, kind)
        ent = eng.sinks.pop()
        pair_panics(eng, ent, v, p, q)
        if o is None:
            return None
        w = sortby(v, p, q, o)
        return put(w), tup(take(w, args[1]), idx(w, args[1]), interp.vslice(w, add(args[1], ONE), n))
    if name == "partition_point":
        pos, out = site + "#pos", site + "#out"

        def probe(s, x):
            r = eng.call_value(args[1], [x], s, site + "!p", at)
            if r is None:
                return []
            a, b = r[0].copy(), r[0].copy()
            b.mem[pos] = add(b.mem[pos], ONE)
            return [("hit", bnot(asbool(r[1])), a), (None, asbool(r[1]), b)]
        r = finish(eng, eng.loop_over(st, A("$siter", v, ZERO, n), probe, site, {pos: ZERO}), site, [pos])
        return r and (r[0], r[1][0])
    if name == "choose" and len(args) == 2:
        st = st.copy()
        i = restrict(draw(eng, udist(False, "u", ZERO, n), site), bnot(le0(n)))
        return st, ite(le0(n), NONE, some(idx(v, i)))
    if name == "fill_with":
        root = site + "#col"

        def each(s, x):
            r = eng.call_value(args[1], [], s, site + "!g", at)
            if r is None:
                return []
            s2 = r[0].copy()
            s2.mem[root] = cat(s2.mem[root], lit(r[1]))
            return [(None, TRUE, s2)]
        r = finish(eng, eng.loop_over(st, A(RANGE, ZERO, n), each, site, {root: NIL}), site, [root])
        return r and into_place(eng, r0, r[1][0], r[0])
    if name == "retain" or name == "retain_mut":
        root = site + "#col"

        def body(s, x):
            r = eng.call_value(args[1], [x], s, site + "!p", at)
            if r is None:
                return []
            s2 = r[0].copy()
            b = asbool(r[1])
            s2.mem[root] = cat(s2.mem[root], ite(b, lit(x), NIL))
            return [(None, TRUE, s2)]
        outs = eng.loop_over(st, A("$siter", v, ZERO, n), body, site, {root: NIL})
        r = finish(eng, outs, site, [root])
        if r is None:
            return None
        s, (w,) = r
        eng.write_ref(r0, w, s)
        return s, UNIT
    if name == "drain" or name == "split_off":
        if name == "drain":
            lo, hi = range_of(args[1], n)
        else:
            lo, hi = args[1], n
        eng.panic(st, bor(lt(hi, lo, "i"), lt(n, hi, "i")), at, "range out of bounds")
        w = interp.vslice(v, lo, hi)
        if lo is ZERO and hi is n:
            w = v
        s = put(cat(take(v, lo), interp.vslice(v, hi, n)) if not (lo is ZERO and hi is n) else NIL)
        return s, (A("$siter", w, ZERO, length(w)) if name == "drain" else w)
    if name == "iter":
        return st, to_iter(eng, v, st)
    if name == "iter_mut":
        return st, to_iter(eng, r0, st)
    if name == "into_iter":
        return st, to_iter(eng, r0, st)
    if name == "set_len":
        eng.unsafe(st, lt(n, args[1], "i"), at, "elements beyond the length are made up")
        return put(take(v, imin(args[1], n))), UNIT
    if name in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut"):
        i = args[1]
        nm = it_name(i)
        if nm is not None and nm.startswith("core::ops::range"):
            lo, hi = range_of(i, n)
            bad = bor(lt(hi, lo, "i"), lt(n, hi, "i"))
            w = v if lo is ZERO and hi is n else interp.vslice(v, lo, hi)
            if name == "get":
                return st, ite(bad, NONE, some(w))
            if name == "get_unchecked":
                eng.unsafe(st, bad, at, "range out of bounds")
                return st, w
            eng.panic(st, bad, at, "range out of bounds")
            st = st.copy()
            st.facts = band(st.facts, bnot(bad))
            if name == "index_mut":
                if lo is ZERO and hi is n:
                    return st, r0
                k = fresh_k()
                eng.note_unknown("mutable sub-slice")
                return st, unk("mutable sub-slice")
            return st, w
        bad = le(n, i, "i")
        if name == "get":
            return st, ite(bad, NONE, some(idx(v, i)))
        if name == "get_mut":
            return st, ite(bad, NONE, some(refto(i)))
        st = st.copy()
        if not name.startswith("get_unchecked"):
            eng.panic(st, bad, at, "index out of bounds")
            st.facts = band(st.facts, bnot(bad))
            if st.facts is FALSE:
                return None
        else:
            eng.unsafe(st, bad, at, "index out of bounds")
        if name in ("index_mut", "get_unchecked_mut"):
            return st, refto(i)
        return st, restrict(idx(v, i), bnot(bad))
    if name in ("first", "last", "first_mut", "last_mut"):
        e = le0(n)
        i = ZERO if name.startswith("first") else sub(n, ONE)
        return st, ite(e, NONE, some(refto(i) if name.endswith("mut") else idx(v, i)))
    if name in ("split_first", "split_last"):
        e = le0(n)
        if name == "split_first":
            x, y = idx(v, ZERO), interp.vslice(v, ONE, n)
        else:
            x, y = idx(v, sub(n, ONE)), take(v, sub(n, ONE))
        return st, ite(e, NONE, some(tup(x, y)))
    if name == "split_at":
        eng.panic(st, lt(n, args[1], "i"), at, "split_at")
        return st, tup(take(v, args[1]), interp.vslice(v, args[1], n))
    if name == "windows":
        k = fresh_k()
        w = args[1]
        m = nonneg_part(add(sub(n, w), ONE))
        return st, A("$siter", comp(m, k, interp.vslice(v, k, add(k, w))), ZERO, m)
    if name == "chunks":
        k = fresh_k()
        w = args[1]
        m = intdiv("idiv", add(n, sub(w, ONE)), w)
        tm.UINTS.update(x for x in leaves(m) if x.op != "num")
        return st, A("$siter", comp(m, k, interp.vslice(v, mul(k, w), imin(add(mul(k, w), w), n))), ZERO, m)
    if name == "contains":
        k = fresh_k()
        t = (f.get("targs") or [{"k": "param", "n": "?"}])[0]
        x = eng.deep(args[1], st)
        return st, anyq(n, k, eq_ty(eng, t, idx(v, k), x))
    if name in ("concat",):
        k = fresh_k()
        return st, flat(n, k, idx(v, k))
    if name in ("push_str",):
        return put(cat(v, eng.deep(args[1], st))), UNIT
    if name == "extend":
        it = to_iter(eng, args[1], st)
        r = materialise(eng, st, it, site)
        if r is None:
            return None
        s = r[0].copy()
        eng.write_ref(r0, cat(eng.deep(r0, s), r[1]), s)
        return s, UNIT
    if name in ("capacity", "reserve", "shrink_to_fit", "reserve_exact"):
        return st, UNIT if name != "capacity" else n
    if name == "copy_from_slice" or name == "clone_from_slice":
        w = eng.deep(args[1], st)
        eng.panic(st, bnot(eqn(n, length(w), "i")), at, "slice lengths differ")
        return put(w), UNIT
    return unmodelled(eng, f, args, st)


def range_of(r, n):
    nm = it_name(r)
    f = r.args[2] if nm else ()
    if nm == RANGE:
        return f[0], f[1]
    if nm == "core::ops::range::RangeFrom":
        return f[0], n
    if nm == "core::ops::range::RangeTo":
        return ZERO, f[0]
    if nm == "core::ops::range::RangeToInclusive":
        return ZERO, add(f[0], ONE)
    if nm == "$rangeinc":
        return f[0], add(f[1], ONE)
    return ZERO, n


# ================================================================ Option / Result
def opt_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    isres = f["path"].startswith("core::result")
    good, bad = (0, 1) if isres else (1, 0)
    ctor = RES if isres else OPT
    raw = args[0]
    v = eng.deep(raw, st)
    ok = is_variant(v, good)
    if ok is BOT:
        return None
    val = restrict(vfield(v, good, 0), ok) if ok is not FALSE else BOT

    def put(s, x):
        s = s.copy()
        eng.write_ref(raw, x, s)
        return s

    def branch(fn, fargs, cond, other):
        """call fn when cond holds; otherwise value other"""
        if cond is FALSE:
            return st, other
        eng.sinks.append([])
        r = eng.call_value(fn, fargs, st.copy(), site + "!o", at)
        ent = eng.sinks.pop()
        eng.lifted(ent, lambda c: band(cond, c))
        if r is None:
            if cond is TRUE:
                return None
            s = st.copy()
            s.facts = band(s.facts, bnot(cond))
            return s, other
        s, x = r
        if cond is TRUE:
            return s, x
        g, s = eng.merge([(cond, s), (bnot(cond), st)])
        return s, ite(cond, x, other)
    mk_ok = (lambda x: agg(ctor, good, (x,)))
    none = NONE
    if name in ("is_some", "is_ok"):
        return st, ok
    if name in ("is_none", "is_err"):
        return st, bnot(ok)
    if name in ("unwrap", "expect"):
        eng.panic(st, bnot(ok), at, name + " failed")
        if ok is FALSE:
            return None
        st = st.copy()
        st.facts = band(st.facts, ok)
        return st, val
    if name in ("unwrap_unchecked", "unwrap_err_unchecked"):
        x = name == "unwrap_unchecked"
        eng.unsafe(st, bnot(ok) if x else ok, at, "there is no value")
        return st, vfield(v, good, 0) if x else vfield(v, bad, 0)
    if name in ("unwrap_err", "expect_err"):
        eng.panic(st, ok, at, name + " failed")
        return st, vfield(v, bad, 0)
    if name == "unwrap_or":
        return st, ite(ok, val, args[1])
    if name == "unwrap_or_else":
        r = branch(args[1], [] if not isres else [vfield(v, bad, 0)], bnot(ok), val)
        return r
    if name == "unwrap_or_default":
        return st, ite(ok, val, default_of(dty))
    if name in ("as_ref", "cloned", "copied", "as_deref", "clone"):
        return st, v
    if name in ("as_mut", "as_deref_mut"):
        def g(r):
            if r.op != "mref":
                return vfield(r, good, 0)
            return interp.mref(r.args[0], r.args[1] + (("v", good, 0),))
        m = lift(("asmut", good), g, raw)
        return st, ite(ok, agg(ctor, good, (m,)), agg(ctor, bad, () if not isres else (vfield(v, bad, 0),)))
    if name == "map":
        other = none if not isres else ite(ok, BOT, agg(RES, 1, (vfield(v, 1, 0),)))
        r = branch(args[1], [val], ok, None if ok is TRUE else UNIT)
        if r is None:
            return None
        s, x = r
        return s, ite(ok, mk_ok(x), other) if ok is not FALSE else other
    if name == "map_err":
        r = branch(args[1], [vfield(v, 1, 0)], bnot(ok), UNIT)
        if r is None:
            return None
        return r[0], ite(ok, mk_ok(val), agg(RES, 1, (r[1],)))
    if name == "and_then":
        return branch(args[1], [val], ok, none if not isres else agg(RES, 1, (vfield(v, 1, 0),)))
    if name == "filter":
        r = branch(args[1], [val], ok, FALSE)
        if r is None:
            return None
        keep = band(ok, asbool(r[1]))
        return r[0], ite(keep, v, NONE)
    if name in ("is_some_and", "is_ok_and"):
        r = branch(args[1], [val], ok, FALSE)
        return r and (r[0], band(ok, asbool(r[1])))
    if name == "is_none_or":
        r = branch(args[1], [val], ok, TRUE)
        return r and (r[0], bor(bnot(ok), asbool(r[1])))
    if name == "map_or":
        return branch(args[2], [val], ok, args[1])
    if name == "map_or_else":
        a = branch(args[1], [] if not isres else [vfield(v, bad, 0)], bnot(ok), UNIT)
        if a is None:
            return None
        x = a[1]
        st0, st = st, a[0]
        eng.sinks.append([])
        r = eng.call_value(args[2], [val], st.copy(), site + "!o2", at)
        ent = eng.sinks.pop()
        eng.lifted(ent, lambda c: band(ok, c))
        if r is None:
            return st, x
        g, s = eng.merge([(ok, r[0]), (bnot(ok), st)])
        return s, ite(ok, r[1], x)
    if name == "ok":
        return st, ite(ok, some(val), NONE)
    if name == "err":
        return st, ite(ok, NONE, some(vfield(v, bad, 0)))
    if name == "ok_or":
        return st, ite(ok, agg(RES, 0, (val,)), agg(RES, 1, (args[1],)))
    if name == "ok_or_else":
        r = branch(args[1], [], bnot(ok), UNIT)
        return r and (r[0], ite(ok, agg(RES, 0, (val,)), agg(RES, 1, (r[1],))))
    if name == "or":
        return st, ite(ok, v, args[1])
    if name == "or_else":
        return branch(args[1], [] if not isres else [vfield(v, bad, 0)], bnot(ok), v)
    if name == "and":
        return st, ite(ok, args[1], v)
    if name == "xor":
        o = is_variant(args[1], 1)
        return st, ite(ok, ite(o, NONE, v), args[1])
    if name == "zip":
        o = is_variant(args[1], 1)
        c = band(ok, o)
        return st, ite(c, some(tup(val, vfield(args[1], 1, 0))), NONE)
    if name == "take":
        return put(st, NONE), v
    if name == "replace":
        return put(st, some(args[1])), v
    if name == "insert":
        s = put(st, some(args[1]))
        return s, lift("optins", lambda r: interp.mref(r.args[0], r.args[1] + (("v", 1, 0),))
                       if r.op == "mref" else args[1], raw)
    if name in ("get_or_insert_with", "get_or_insert"):
        if name == "get_or_insert":
            s, x = st, ite(ok, val, args[1])
        else:
            r = branch(args[1], [], bnot(ok), val)
            if r is None:
                return None
            s, x = r
        s = put(s, some(x))
        return s, lift("optins", lambda r: interp.mref(r.args[0], r.args[1] + (("v", 1, 0),))
                       if r.op == "mref" else x, raw)
    if name in ("iter", "into_iter"):
        w = ite(ok, lit(val), NIL) if ok is not FALSE else NIL
        return st, A("$siter", w, ZERO, length(w))
    if name == "flatten":
        return st, ite(ok, val, NONE)
    return unmodelled(eng, f, args, st)


def default_of(ty):
    if ty in tm.WIDTH or ty in ("f64", "f32"):
        return ZERO
    if ty == "bool":
        return FALSE
    if ty.startswith("alloc::vec::Vec") or ty.startswith("alloc::string"):
        return NIL
    if ty.startswith(OPT):
        return NONE
    if set_kind(ty):
        return A(set_kind(ty), NIL)
    if ty.startswith("alloc::collections::vec_deque::"):
        return NIL
    return unk("default " + ty)


# ================================================================ numbers
BIN = {"add": add, "sub": sub, "mul": mul, "div": div}
FUN1 = {"sin", "cos", "exp2", "floor", "ceil", "trunc", "round", "ln", "exp", "tan", "atan", "asin", "acos",
        "cosh", "sinh", "tanh", "log2", "log10", "cbrt", "fract"}


def signum(v):
    return lift("signum", lambda x: mk("signum", x) if const(x) is None else
                num(1 if const(x) >= 0 else -1), v)


def fmax(a, b):
    return ite(is_nan(a), b, ite(is_nan(b), a, ite(lt(a, b, "f"), b, a)))


def fmin(a, b):
    return ite(is_nan(a), b, ite(is_nan(b), a, ite(lt(b, a, "f"), b, a)))


def float_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    a = [eng.deep(x, st) for x in args]
    if name == "abs":
        return st, fabs(a[0])
    if name == "sqrt":
        return st, sqrt(a[0])
    if name == "powi":
        return st, powi(a[0], a[1])
    if name in ("powf",):
        return st, powf(a[0], a[1])
    if name == "recip":
        return st, div(ONE, a[0])
    if name == "mul_add":
        return st, add(mul(a[0], a[1]), a[2])
    if name == "hypot":
        return st, sqrt(add(mul(a[0], a[0]), mul(a[1], a[1])))
    if name == "is_nan":
        return st, is_nan(a[0])
    if name == "is_finite":
        return st, is_finite(a[0])
    if name == "is_infinite":
        return st, band(bnot(is_nan(a[0])), is_inf(a[0]))
    if name in ("is_normal", "is_subnormal"):
        big = bnot(lt(fabs(a[0]), mk("cst", "MIN_POSITIVE"), "f"))
        if name == "is_normal":
            return st, band(is_finite(a[0]), big)
        return st, band(is_finite(a[0]), band(bnot(big), bnot(eqn(a[0], ZERO, "f"))))
    if name == "max":
        return st, fmax(a[0], a[1])
    if name == "min":
        return st, fmin(a[0], a[1])
    if name == "clamp":
        eng.panic(st, bnot(le(a[1], a[2], "f")), at, "clamp")
        return st, ite(lt(a[0], a[1], "f"), a[1], ite(lt(a[2], a[0], "f"), a[2], a[0]))
    if name == "signum":
        return st, signum(a[0])
    if name == "copysign":
        return st, lift("copysign", lambda x, y: mk("copysign", x, y), a[0], a[1])
    if name in ("is_sign_negative", "is_sign_positive"):
        t = lift("signbit", lambda x: node(atom("b", mk("signbit", x)), TRUE, FALSE), a[0])
        return st, t if name == "is_sign_negative" else bnot(t)
    if name == "total_cmp":
        # a NaN with a negative sign is less than everything else, one with a positive sign is greater
        n0, n1 = is_nan(a[0]), is_nan(a[1])
        s0, s1 = (lift("signbit", lambda x: node(atom("b", mk("signbit", x)), TRUE, FALSE), x) for x in a[:2])
        both = band(n0, n1)
        l = ite(both, band(s0, bnot(s1)), ite(n0, s0, ite(n1, bnot(s1), lt(a[0], a[1], "f"))))
        g = ite(both, band(bnot(s0), s1), ite(n0, bnot(s0), ite(n1, s1, lt(a[1], a[0], "f"))))
        return st, interp.order(l, g)
    if name == "to_bits":
        t = "u32" if "f32" in f["path"] else "u64"
        return st, lift(("bits", t), lambda x: mk_uint("bits", t, x), a[0])
    if name == "from_bits":
        t = "u32" if "f32" in f["path"] else "u64"
        return st, lift(("frombits", t), lambda x: x.args[1] if x.op == "bits" and x.args[0] == t else
                        mk("frombits", x, t), a[0])
    if name == "integer_decode":
        return st, lift("idec", lambda x: tup(mk_uint("idec", 0, x), mk_int("idec", 1, x), mk_int("idec", 2, x)), a[0])
    if name == "pi" or name.isupper():
        return st, mk("cst", name)
    if name in FUN1:
        return st, fun(name, a[0])
    if name in ("infinity",):
        return st, INF
    if name in ("neg_infinity",):
        return st, NINF
    if name == "nan":
        return st, NAN
    if name in ("max_value", "min_value", "epsilon", "min_positive_value"):
        return st, mk("cst", name)
    if name in ("to_degrees", "to_radians", "rem_euclid", "div_euclid", "exp_m1", "ln_1p", "atan2", "sin_cos", "log"):
        return st, lift(name, lambda *x: mk(name, *x), *a)
    return unmodelled(eng, f, args, st)


def mk_uint(*x):
    t = mk(*x)
    tm.UINTS.add(t)
    return t


def mk_int(*x):
    t = mk(*x)
    tm.INTS.add(t)
    return t


def int_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    a = [eng.deep(x, st) for x in args]
    t = tys[0].lstrip("&") if tys else dty
    if name == "pow":
        return st, powi(a[0], a[1])
    if name == "saturating_sub":
        return st, monus(a[0], a[1]) if t.startswith("u") else unk("saturating_sub")
    if name in ("wrapping_add", "saturating_add"):
        return st, add(a[0], a[1])
    if name in ("wrapping_mul", "saturating_mul"):
        return st, mul(a[0], a[1])
    if name == "wrapping_sub" and t.startswith("i"):
        return st, sub(a[0], a[1])
    if name == "checked_sub":
        c = lt(a[0], a[1], "i")
        return st, ite(c, NONE, some(sub(a[0], a[1]))) if t.startswith("u") else some(sub(a[0], a[1]))
    if name == "checked_add":
        return st, some(add(a[0], a[1]))
    if name == "checked_mul":
        return st, some(mul(a[0], a[1]))
    if name == "checked_div":
        c = eqn(a[1], ZERO, "i")
        return st, ite(c, NONE, some(intdiv("idiv", a[0], a[1])))
    if name == "abs":
        return st, ite(lt(a[0], ZERO, "i"), neg(a[0]), a[0])
    if name == "abs_diff":
        return st, ite(lt(a[0], a[1], "i"), sub(a[1], a[0]), sub(a[0], a[1]))
    if name == "div_ceil":
        r = intdiv("idiv", add(a[0], sub(a[1], ONE)), a[1])
        return st, r
    if name in ("min", "max", "clamp"):
        return cmp_method(eng, dict(f, targs=[{"k": "prim", "n": "usize"}]), args, tys, st, site, at, dty)
    if name in ("wrapping_shl", "wrapping_shr", "unbounded_shl", "unbounded_shr"):
        return st, bitop("shl" if "shl" in name else "shr", t, a[0], a[1])
    if name in ("max_value", "min_value"):
        w = tm.WIDTH.get(dty)
        if w:
            hi = (1 << w) - 1 if dty[0] == "u" else (1 << (w - 1)) - 1
            return st, num(hi if name == "max_value" else (0 if dty[0] == "u" else -hi - 1))
    if name == "reverse_bits" or name == "count_ones" or name == "rotate_left":
        return st, bitop(name, t, *a)
    if name == "signum":
        return st, ite(lt(a[0], ZERO, "i"), num(-1), ite(eqn(a[0], ZERO, "i"), ZERO, ONE))
    return unmodelled(eng, f, args, st)


def arith_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    tg = eng.target(f)
    if tg is not None:
        return eng.call_fn(tg[0], args, st, site, tg[1])
    targs = f.get("targs") or []
    t0 = strip(targs[0]) if targs else {"k": "?"}
    a = [eng.deep(x, st) for x in args]
    prim = t0.get("n") if t0["k"] == "prim" else None
    isint_ = prim in tm.WIDTH
    if t0["k"] == "adt" and t0["p"] == "alloc::string::String":
        if name == "add":
            return st, cat(a[0], a[1])
        if name == "add_assign":
            s = st.copy()
            eng.write_ref(args[0], cat(a[0], a[1]), s)
            return s, UNIT
    if name in ("add", "sub", "mul", "div", "rem") or name.endswith("_assign") and \
            name[:-7] in ("add", "sub", "mul", "div", "rem"):
        op = name[:3]
        if op in ("add", "sub", "mul"):
            if op == "sub" and prim and prim[0] == "u":
                eng.panic(st, lt(a[0], a[1], "i"), at, "subtract with overflow")
            v = BIN[op](a[0], a[1])
        elif op == "div":
            v = intdiv("idiv", a[0], a[1]) if isint_ else div(a[0], a[1])
        else:
            v = intdiv("irem", a[0], a[1]) if isint_ else fun("frem", a[0], a[1])
        if name.endswith("_assign"):
            s = st.copy()
            eng.write_ref(args[0], v, s)
            return s, UNIT
        return st, interp.mark(v, prim) if isint_ else v
    if name == "neg":
        return st, neg(a[0])
    if name == "not":
        if prim == "bool":
            return st, bnot(asbool(a[0]))
        return st, bitop("not", prim or "T", a[0])
    base = name[:-7] if name.endswith("_assign") else name
    if base in ("bitand", "bitor", "bitxor", "shl", "shr"):
        op = {"bitand": "and", "bitor": "or", "bitxor": "xor"}.get(base, base)
        if prim == "bool":
            x, y = asbool(a[0]), asbool(a[1])
            v = {"and": band, "or": bor}[op](x, y) if op != "xor" else ite(x, bnot(y), y)
        else:
            v = bitop(op, prim or "T", a[0], a[1])
        if name.endswith("_assign"):
            s = st.copy()
            eng.write_ref(args[0], v, s)
            return s, UNIT
        return st, v
    return unmodelled(eng, f, args, st)


def numcast(eng, f, args, tys, st, site, at, dty):
    """NumCast::from, ToPrimitive::to_*: exact (assumption recorded in the evidence)"""
    a = eng.deep(args[0], st)
    name = f["name"]
    if name == "to_f32" or name == "from" and f["targs"][0].get("n") == "f32":
        a = interp.single(a)
    if name.startswith("to_") and name[3:] in tm.WIDTH:
        a = lift("f2i", lambda x: x if isint(x) else interp.mark(mk("f2i", name[3:], x), name[3:]), a)
    if name == "from":
        t = f["targs"][0]
        if t["k"] == "prim" and t["n"] in tm.WIDTH:
            a = lift("f2i", lambda x: x if isint(x) else interp.mark(mk("f2i", t["n"], x), t["n"]), a)
    return st, some(a)


# ================================================================ random numbers
def kind_of(t):
    if t["k"] == "prim":
        if t["n"] in tm.WIDTH:
            return t["n"][0]
        return "f"
    return "f"


def uniform_new(eng, f, args, tys, st, site, at, dty):
    incl = f["name"] == "new_inclusive"
    a, b = eng.deep(args[0], st), eng.deep(args[1], st)
    t = (f.get("targs") or [{"k": "?"}])[0]
    kd = kind_of(t)
    c = (le if incl else lt)(a, b, "i" if kd != "f" else "f")
    eng.panic(st, bnot(c), at, "empty range of a uniform distribution")
    if c is FALSE:
        return None
    st = st.copy()
    st.facts = band(st.facts, c)
    return st, udist(incl, kd, a, b)




def draw(eng, dist, site):
    def g(d):
        if d.op == "udist":
            t = mk("draw", d, site, tuple(eng.ks), d.args[1])
            return t
        x = d
        while isinstance(x, T) and x.args and isinstance(x.args[0], T):
            x = x.args[0]
        if isinstance(x, T) and x.op == "sym" and x.args[0].startswith("static "):
            ks = tuple(eng.ks)             # from whatever somebody else left there
            return mk("res", "sample", site, ks, (d,) + ks)
        return unk("draw from", d)
    eng.drawn += 1
    return lift(("draw", site, tuple(eng.ks)), g, dist)


def sample(eng, f, args, tys, st, site, at, dty):
    d = eng.deep(args[0], st)
    if f["name"] == "sample" and (f.get("trait") or "").endswith("Rng"):
        d = eng.deep(args[1], st)
    return st, draw(eng, d, site)


def rng_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    if name == "sample":
        return st, draw(eng, eng.deep(args[1], st), site)
    if name == "gen_range":
        t = [x for x in (f.get("targs") or [])]
        if len(args) == 3:
            a, b = eng.deep(args[1], st), eng.deep(args[2], st)
            incl = False
        else:
            r = eng.deep(args[1], st)
            nm = it_name(r)
            if nm not in (RANGE, "$rangeinc"):
                return unmodelled(eng, f, args, st)
            a, b = r.args[2]
            incl = nm == "$rangeinc"
        kd = dty[0] if dty in tm.WIDTH else "f"
        c = (le if incl else lt)(a, b, "i" if kd != "f" else "f")
        eng.panic(st, bnot(c), at, "empty range")
        if c is FALSE:
            return None
        st = st.copy()
        st.facts = band(st.facts, c)
        return st, draw(eng, udist(incl, kd, a, b), site)
    if name in ("gen", "random"):
        if dty in ("f64", "f32") or dty.startswith("T:"):
            return st, draw(eng, udist(False, "f", ZERO, ONE), site)
        if dty == "bool":
            return st, lt(draw(eng, udist(False, "f", ZERO, ONE), site), num("1/2"), "f")
    if name == "gen_bool":
        return st, lt(draw(eng, udist(False, "f", ZERO, ONE), site), eng.deep(args[1], st), "f")
    return unmodelled(eng, f, args, st)


# ================================================================ formatting
def fmt_template(hexs):
    """decode the byte template of core::fmt::Arguments: [(text) | (arg index, flags, width, precision)]"""
    b = bytes.fromhex(hexs) if isinstance(hexs, str) else hexs
    out = []
    i, argno = 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + ln].decode("utf8", "replace"))
            i += ln
        elif n == 0xC0:
            out.append((argno, None, None, None, 0, 0))
            argno += 1
        else:
            flags = width = prec = None
            if n & 1:
                flags = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if n & 2:
                width = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 4:
                prec = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 8:
                argno = int.from_bytes(b[i:i + 2], "little")
                i += 2
            out.append((argno, flags, width, prec, n & 16, n & 32))
            argno += 1
    return out


def args_new(eng, f, args, tys, st, site, at, dty):
    if f["name"] == "from_str" or f["name"] == "from_str_nonconst":
        return st, strval(eng.deep(args[0], st))
    t = eng.deep(args[0], st)
    av = eng.deep(args[1], st) if len(args) > 1 else NIL
    if not (isinstance(t, T) and t.op == "bytes"):
        return st, unk("format template")
    parts = []
    for p in fmt_template(t.args[0]):
        if isinstance(p, str):
            parts.append(mk("str", p))
            continue
        argno, flags, width, prec, wi, pi = p
        a = idx(av, num(argno))
        w = idx(av, num(width)) if wi else num(width) if width is not None else UNIT
        pr = idx(av, num(prec)) if pi else num(prec) if prec is not None else UNIT

        def g(x, wv, pv):
            if x.op == "agg" and x.args[0].startswith("$disp"):
                wv2 = wv.args[2][0] if wv.op == "agg" and wv.args[0] == "$dispnum" else wv
                pv2 = pv.args[2][0] if pv.op == "agg" and pv.args[0] == "$dispnum" else pv
                y = x.args[2][0]
                if wv2 is UNIT and pv2 is UNIT and flags is None and strlike(y):
                    return y
                return mk("disp", x.args[0], y, wv2, pv2, flags or 0)
            return unk("format argument")
        parts.append(lift(("disp", flags, next(tm._fresh)), g, a, w, pr))
    return st, cat(*parts) if parts else NIL


def strlike(y):
    return isinstance(y, T) and (y.op in ("str", "disp", "cat", "flat") or y is NIL)


def strval(v):
    return v


def fmt_arg(eng, f, args, tys, st, site, at, dty):
    n = f["name"]
    v = eng.deep(args[0], st)
    if n == "from_usize":
        return st, A("$dispnum", v)
    if n == "new_display":
        return st, A("$disp", v)
    return st, A("$disp:" + n, v)


def write_call(eng, f, args, tys, st, site, at, dty):
    """text written to a writer: one event per call"""
    st = st.copy()
    w = eng.deep(args[0], st)
    text = eng.deep(args[1], st) if len(args) > 1 else NIL
    ks = tuple(eng.ks)
    name = f["name"]
    if name in ("write_fmt", "write_str", "write_all", "write"):
        ev = mk("ev", "write", (w, text), site, ks, "%s %s" % at)
        st.mem[interp.TRACE] = cat(st.mem.get(interp.TRACE, NIL), lit(ev))
        # assumption recorded in the evidence: the writer does not fail
        return st, agg(RES, 0, (UNIT,))
    return st, agg(RES, 0, (UNIT,))


# ================================================================ misc
def ident(eng, f, args, tys, st, site, at, dty):
    return st, args[0]


def deepid(eng, f, args, tys, st, site, at, dty):
    return st, eng.deep(args[0], st)


def into_iter(eng, f, args, tys, st, site, at, dty):
    return st, to_iter(eng, args[0], st, (f.get("targs") or [None])[0])


def into_place(eng, ref, x, st):
    """write x to the place a (reference to a) reference leads to"""
    s = st.copy()
    while interp.is_mref(eng.load(ref, s)):
        ref = eng.load(ref, s)
    eng.write_ref(ref, x, s)
    return s, UNIT


def m_clone(eng, f, args, tys, st, site, at, dty):
    if f["name"] == "clone_from":
        return into_place(eng, args[0], eng.deep(args[1], st), st)
    if f["name"] == "clone_into":
        return into_place(eng, args[1], eng.deep(args[0], st), st)
    if f["name"] not in ("clone", "to_owned"):
        return unmodelled(eng, f, args, st)
    tg = eng.target(f)
    if tg is not None:
        return eng.call_fn(tg[0], args, st, site, tg[1])
    return st, eng.deep(args[0], st)


def mem_fn(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    if name in ("size_of", "size_of_val"):
        t = f["targs"][0]
        return st, sizeof(t)
    if name == "drop" or name == "forget":
        return st, UNIT
    old = eng.load(args[0], st)
    st = st.copy()
    if name == "replace":
        eng.write_ref(args[0], args[1], st)
        return st, old
    if name == "take":
        eng.write_ref(args[0], default_of(short_ty(f["targs"][0])), st)
        return st, old
    if name == "swap":
        o2 = eng.load(args[1], st)
        eng.write_ref(args[0], o2, st)
        eng.write_ref(args[1], old, st)
        return st, UNIT
    return unmodelled(eng, f, args, st)


def sizeof(t):
    if t["k"] == "prim":
        n = t["n"]
        if n in tm.WIDTH:
            return num(tm.WIDTH[n] // 8)
        if n in ("f64", "f32"):
            return num(8 if n == "f64" else 4)
        if n == "bool":
            return ONE
    if t["k"] == "ref":
        return num(8)
    return mk_uint("sizeof", short_ty(t))


def box_vec(eng, f, args, tys, st, site, at, dty):
    v = field(field(args[0], 1), 0)
    # MaybeUninit<[T; N]> { value: ManuallyDrop { value } }
    for _ in range(3):
        if isinstance(v, T) and v.op == "lit":
            break
        if isinstance(v, T) and v.op == "agg" and len(v.args[2]) == 1:
            v = v.args[2][0]
        elif isinstance(v, T) and v.op == "rec":
            v = field(v, v.args[1][0][0])
    return st, v


def new_uninit(eng, f, args, tys, st, site, at, dty):
    return st, mk("sym", "$uninit")


def from_elem(eng, f, args, tys, st, site, at, dty):
    return st, comp(args[1], fresh_k(), args[0])


def call_method(eng, f, args, tys, st, site, at, dty):
    """Fn::call(f, (args,))"""
    t = eng.deep(args[1], st)
    av = list(t.args[2]) if isinstance(t, T) and t.op == "agg" else [t]
    return eng.call_value(args[0], av, st, site, at, dty)


def ord_method(eng, f, args, tys, st, site, at, dty):
    name = f["name"]
    v = eng.deep(args[0], st)
    L, E, G = (agg(interp.ORD, i, ()) for i in range(3))
    l, e, g = (interp.is_variant3(v, i) for i in range(3))
    if name == "reverse":
        return st, ite(l, G, ite(g, L, E))
    if name == "then":
        return st, ite(e, args[1], v)
    if name == "then_with":
        eng.sinks.append([])
        r = eng.call_value(args[1], [], st, site + "!t", at)
        ent = eng.sinks.pop()
        eng.lifted(ent, lambda c: band(e, c))
        return r and (r[0], ite(e, r[1], v))
    if name in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"):
        return st, {"is_lt": l, "is_le": bnot(g), "is_gt": g, "is_ge": bnot(l), "is_eq": e, "is_ne": bnot(e)}[name]
    return unmodelled(eng, f, args, st)


def cmp_fn(eng, f, args, tys, st, site, at, dty):
    t = (f.get("targs") or [{"k": "prim", "n": "usize"}])
    return cmp_method(eng, dict(f, targs=t), args, tys, st, site, at, dty)


def from_into(eng, f, args, tys, st, site, at, dty):
    if set_kind(dty):
        return to_set(eng, f, set_kind(dty), st, to_iter(eng, args[0], st), site)
    if dty.startswith(OTHER):
        return unmodelled(eng, f, args, st)
    return st, eng.deep(args[0], st) if not interp.is_mref(args[0]) else args[0]


FLOW = "core::ops::control_flow::ControlFlow"


def question(eng, f, args, tys, st, site, at, dty):
    """the ? operator on an Option or a Result"""
    t = f["targs"][0].get("p") if f.get("targs") else None
    if f["name"] == "branch" and t in (tm.OPT, tm.RES):
        v = eng.deep(args[0], st)
        one = is_variant(v, 1)
        if t == tm.OPT:
            return st, ite(one, agg(FLOW, 0, (vfield(v, 1, 0),)), agg(FLOW, 1, (NONE,)))
        return st, ite(one, agg(FLOW, 1, (agg(tm.RES, 1, (vfield(v, 1, 0),)),)), agg(FLOW, 0, (vfield(v, 0, 0),)))
    if f["name"] == "from_residual" and t in (tm.OPT, tm.RES):
        return st, NONE if t == tm.OPT else agg(tm.RES, 1, (vfield(eng.deep(args[0], st), 1, 0),))
    if t == FLOW and f["name"] == "branch":
        v = eng.deep(args[0], st)
        return st, ite(is_variant(v, 1), agg(FLOW, 1, (agg(FLOW, 1, (vfield(v, 1, 0),)),)),
                       agg(FLOW, 0, (vfield(v, 0, 0),)))
    if t == FLOW and f["name"] == "from_residual":
        return st, agg(FLOW, 1, (vfield(eng.deep(args[0], st), 1, 0),))
    if f["name"] == "from_output" and t in (tm.OPT, tm.RES, FLOW):
        return st, agg(t, 1 if t == tm.OPT else 0, (eng.deep(args[0], st),))
    return unmodelled(eng, f, args, st)


def outside(a):
    """the static or thread local a reference leads to"""
    return a.args[0] if interp.is_mref(a) and a.args[0].startswith("static ") else None


def hidden(eng, f, args, tys, st, site, at, dty):
    """state outside the arguments (a static, a thread local) that others may change: another value at every access"""
    a = outside(args[0]) if isinstance(args[0], T) else None
    if a is None:
        return unmodelled(eng, f, args, st)
    if f["name"] in ("store", "set"):
        return st, UNIT
    if f["name"] not in ("load", "swap", "get", "replace", "take") and not f["name"].startswith("fetch_"):
        return unmodelled(eng, f, args, st)
    ks = tuple(eng.ks)
    return st, interp.mark(mk("res", a, site, ks, (mk("str", site),) + ks), dty)


def thread_local(eng, f, args, tys, st, site, at, dty):
    if f["name"] in ("with", "with_borrow", "with_borrow_mut") and outside(args[0]):
        return eng.call_value(args[1], [args[0]], st, site, at, dty)
    return hidden(eng, f, args, tys, st, site, at, dty)


def guarded(eng, f, args, tys, st, site, at, dty):
    """access to what a static cell, mutex or lock holds"""
    if not outside(args[0]):
        return unmodelled(eng, f, args, st)
    if f["name"] in ("borrow", "borrow_mut", "get_mut", "as_ptr"):
        return st, args[0]
    if f["name"] in ("lock", "read", "write"):
        return st, agg(RES, 0, (args[0],))
    return hidden(eng, f, args, tys, st, site, at, dty)


def once(eng, f, args, tys, st, site, at, dty):
    """a static set at most once: by an earlier caller, or now"""
    s = outside(args[0])
    if not s:
        return unmodelled(eng, f, args, st)
    st = st.copy()
    v = st.mem[s]
    if f["name"] == "get":
        return st, v
    if f["name"] == "set":
        st.mem[s] = ite(is_variant(v, 1), v, some(args[1]))
        return st, ite(is_variant(v, 1), agg(RES, 1, (args[1],)), agg(RES, 0, (UNIT,)))
    if f["name"] != "get_or_init":
        return unmodelled(eng, f, args, st)
    r = eng.call_value(args[1], [], st, site, at, dty)
    if r is None:
        return None
    st, x = r
    st = st.copy()
    c = args[1]
    if isinstance(c, T) and c.op == "agg" and str(c.args[0]).startswith("closure:") and not c.args[2]:
        return st, x                       # whoever comes first computes the same
    v = st.mem[s]
    y = ite(is_variant(v, 1), vfield(v, 1, 0), x)
    st.mem[s] = some(y)
    return st, y


def m_default(eng, f, args, tys, st, site, at, dty):
    tg = eng.target(f)
    if tg is not None:
        return eng.call_fn(tg[0], args, st, site, tg[1])
    return st, default_of(short_ty(f["targs"][0]) if f.get("targs") else dty)


def event_fn(name):
    def g(eng, f, args, tys, st, site, at, dty):
        st = st.copy()
        ks = tuple(eng.ks)
        vals = tuple(eng.deep(a, st) for a in args)
        ev = mk("ev", name, vals, site, ks, "%s %s" % at)
        st.mem[interp.TRACE] = cat(st.mem.get(interp.TRACE, NIL), lit(ev))
        return st, mk("res", name, site, ks, vals)
    return g


def call_(name, *vals):
    return lift(("pure", name), lambda *x: mk("call", name, x), *vals)


def pure_fn(name):
    def g(eng, f, args, tys, st, site, at, dty):
        vals = tuple(eng.deep(a, st) for a in args)
        return st, interp.mark(lift(("pure", name), lambda *x: mk("call", name, x), *vals), dty)
    return g


def range_incl_new(eng, f, args, tys, st, site, at, dty):
    return st, A("$rangeinc", args[0], args[1])


def const_fn(v):
    return lambda eng, f, args, tys, st, site, at, dty: (st, v)


def range_method(eng, f, args, tys, st, site, at, dty):
    n = f["name"]
    r = eng.deep(args[0], st)
    nm = it_name(r)
    if nm not in (RANGE, "$rangeinc"):
        return unmodelled(eng, f, args, st)
    a, b = r.args[2]
    if n == "contains":
        x = eng.deep(args[1], st)
        t = (f.get("targs") or [{"k": "param", "n": "T"}])[0]
        kd = cmp_kind(t)
        return st, band(le(a, x, kd), (le if nm == "$rangeinc" else lt)(x, b, kd))
    if n == "is_empty":
        return st, bnot((le if nm == "$rangeinc" else lt)(a, b))
    if n in ("start", "end"):
        return st, a if n == "start" else b
    if n == "len":
        return st, exact_len(r)
    return unmodelled(eng, f, args, st)


def extend_any(eng, f, args, tys, st, site, at, dty):
    v = eng.deep(args[0], st)
    ks = {it_name(x) for x in leaves(v)}
    if not ks & set(SETS):
        return vec_method(eng, f, args, tys, st, site, at, dty)
    if not (isinstance(v, T) and f["name"] == "extend" and len(ks) == 1):
        return unmodelled(eng, f, args, st)
    r = to_set(eng, f, it_name(v), st, to_iter(eng, args[1], st), site, v.args[2][0])
    return r and into_place(eng, args[0], r[1], r[0])


def seq_random(eng, f, args, tys, st, site, at, dty):
    """random choices from a sequence"""
    if f["name"] == "choose" and eng.target(f) is None:
        return vec_method(eng, f, args, tys, st, site, at, dty)
    return unmodelled(eng, f, args, st)


TRAITS = {
    ITER: iter_method, DEI: iter_method, ESI: iter_method,
    "core::iter::traits::collect::IntoIterator": into_iter,
    "core::clone::Clone": m_clone,
    "core::cmp::PartialEq": cmp_method, "core::cmp::PartialOrd": cmp_method, "core::cmp::Ord": cmp_method,
    "core::default::Default": m_default,
    "core::convert::From": from_into, "core::convert::Into": from_into,
    "core::convert::AsRef": from_into, "core::convert::AsMut": ident,
    "core::borrow::Borrow": from_into, "core::borrow::BorrowMut": ident,
    "alloc::borrow::ToOwned": m_clone,
    "core::ops::index::Index": vec_method, "core::ops::index::IndexMut": vec_method,
    "core::ops::function::Fn": call_method, "core::ops::function::FnMut": call_method,
    "core::ops::function::FnOnce": call_method,
    "core::iter::traits::collect::Extend": extend_any,
    "num_traits::cast::NumCast": numcast, "num_traits::cast::ToPrimitive": numcast,
    "num_traits::cast::FromPrimitive": numcast,
    "core::ops::try_trait::Try": question, "core::ops::try_trait::FromResidual": question,
    "num_traits::float::Float": float_method, "num_traits::float::FloatConst": float_method,
    "num_traits::real::Real": float_method,
    "num_traits::float::FloatCore": float_method,
    "num_traits::sign::Signed": float_method,
    "rand::distributions::Distribution": sample, "rand::Rng": rng_method,
    "rand::rng::Rng": rng_method,
    "core::io::write::Write": write_call, "std::io::Write": write_call, "core::fmt::Write": write_call,
    "rand::seq::SliceRandom": seq_random,
    "alloc::slice::Join": None,
}


def unreached(eng, f, args, tys, st, site, at, dty):
    eng.unsafe(st, TRUE, at, "reached what is said to be unreachable")
    return None


def assumed(eng, f, args, tys, st, site, at, dty):
    eng.unsafe(st, bnot(args[0]), at, "what is assumed does not hold")
    st = st.copy()
    st.facts = band(st.facts, args[0])
    return (st, UNIT) if st.facts is not FALSE else None


def lookup(eng, f):
    """model of callee f (JSON), or None"""
    if f.get("rlocal") and f.get("rid") in eng.prog.fns:
        return None
    tr, path, name = f.get("trait"), f["path"], f["name"]
    if tr:
        if tr in ("core::ops::index::Index", "core::ops::index::IndexMut"):
            if eng.target(f) is not None:
                return None
            return vec_method
        if tr in ("core::ops::deref::Deref", "core::ops::deref::DerefMut"):
            return ident if eng.target(f) is None else None
        if tr.startswith("core::ops::arith") or tr.startswith("core::ops::bit"):
            return arith_method
        if tr.startswith("num_traits::identities"):
            return {"zero": const_fn(ZERO), "one": const_fn(ONE),
                    "is_zero": lambda e, f_, a, t, st, s, at, d: (st, eqn(e.deep(a[0], st), ZERO)),
                    "is_one": lambda e, f_, a, t, st, s, at, d: (st, eqn(e.deep(a[0], st), ONE))}.get(name)
        if tr == "alloc::string::ToString":
            return lambda e, f_, a, t, st, s, at, d: to_string(e, a, st)
        if tr in TRAITS and TRAITS[tr]:
            if tr in (ITER,) and eng.target(f) is not None and name in ("next",):
                return None
            if tr in ("core::convert::From", "core::convert::Into") and eng.target(f) is not None:
                return None
            return TRAITS[tr]
        if tr == "num_traits::bounds::Bounded":
            return float_method
        return None
    if path.startswith(("alloc::vec::Vec", "alloc::slice::", "core::slice::", "alloc::string::String",
                        "alloc::str::", "core::str::", "core::array::")):
        return vec_method
    if path == "alloc::vec::from_elem":
        return from_elem
    if set_kind(path):
        return set_method
    if path.startswith("alloc::collections::vec_deque::VecDeque"):
        return deque_method
    if path.startswith(("core::option::Option", "core::result::Result")):
        return opt_method
    if path.startswith(("core::f64::", "core::f32::", "std::f64::", "std::f32::")):
        return float_method
    if path.startswith("core::num::"):
        return int_method
    if path.startswith("core::cmp::Ordering"):
        return ord_method
    if path in ("core::cmp::min", "core::cmp::max"):
        return cmp_fn
    if path.startswith(("core::mem::",)):
        return mem_fn
    if path.startswith("core::ops::range::RangeInclusive") and name == "new":
        return range_incl_new
    if path.startswith("core::ops::range::"):
        return range_method
    if path.startswith("alloc::boxed::Box"):
        if name == "new_uninit":
            return new_uninit
        if name in ("new", "pin", "leak", "into_inner"):
            return ident
    if path == "alloc::boxed::box_assume_init_into_vec_unsafe":
        return box_vec
    if path == "core::hint::unreachable_unchecked":
        return unreached
    if path == "core::hint::assert_unchecked":
        return assumed
    if path in ("core::hint::must_use", "core::hint::black_box", "core::convert::identity"):
        return ident
    if path.startswith("rand::rngs::thread::thread_rng") or path.endswith("::thread_rng"):
        return const_fn(mk("sym", "$rng"))
    if path.startswith("rand::distributions::uniform::Uniform"):
        return uniform_new
    if path in ("rand::random",):
        return lambda e, f_, a, t, st, s, at, d: rng_method(e, dict(f_, name="gen"), a, t, st, s, at, d)
    if path.startswith("core::fmt::Arguments"):
        return args_new if name in ("new", "from_str", "from_str_nonconst", "new_const", "new_v1") else None
    if path.startswith("core::fmt::rt::Argument"):
        return fmt_arg
    if path in ("std::io::stdio::_print", "std::io::stdio::_eprint"):
        def console(eng, f, args, tys, st, site, at, dty):
            return write_call(eng, dict(f, name="write_fmt"), [mk("sym", path)] + list(args), tys, st, site, at, dty)[0], UNIT
        return console
    if path == "alloc::fmt::format":
        return deepid
    if path.startswith(("std::time::Instant", "<std::time::Instant as")):
        if name == "now":
            return event_fn("Instant::now")
        if name == "elapsed":
            def elapsed(eng, f, args, tys, st, site, at, dty):
                st, r = event_fn("Instant::now")(eng, f, (), (), st, site, at, dty)
                return st, tm.sub(r, eng.deep(args[0], st))
            return elapsed
        if name in ("duration_since", "sub"):
            return lambda e, f_, a, t, st, s, at, d: (st, tm.sub(e.deep(a[0], st), e.deep(a[1], st)))
    if path.startswith("core::time::Duration"):
        def duration(eng, f, args, tys, st, site, at, dty):
            d = eng.deep(args[0], st)
            s, ms = (interp.mark(call_(x, d), "u64") for x in ("as_secs", "subsec_millis"))
            if name == "as_millis":
                return st, tm.add(tm.mul(num(1000), s), ms)
            if name in ("as_secs", "subsec_millis"):
                return st, s if name == "as_secs" else ms
            return st, unk("duration %s" % name)
        return duration
    if path.startswith("core::iter::sources::"):
        if name == "repeat":
            return lambda e, f_, a, t, st, s, at, d: (st, A("$repeat", a[0]))
        if name in ("repeat_with",):
            return lambda e, f_, a, t, st, s, at, d: (st, A("$repeat_with", a[0]))
        if name == "once":
            return lambda e, f_, a, t, st, s, at, d: (st, A("$siter", lit(a[0]), ZERO, ONE))
        if name == "empty":
            return lambda e, f_, a, t, st, s, at, d: (st, A("$siter", NIL, ZERO, ZERO))
        if name == "repeat_n":
            return lambda e, f_, a, t, st, s, at, d: (st, A("$siter", comp(a[1], fresh_k(), a[0]), ZERO, a[1]))
    if path.startswith(("core::sync::atomic::Atomic::", "core::cell::Cell::")):
        return hidden
    if path.startswith("std::thread::local::LocalKey::"):
        return thread_local
    if path.startswith(("core::cell::RefCell::", "std::sync::poison::mutex::Mutex::", "std::sync::poison::rwlock::RwLock::")):
        return guarded
    if path.startswith(("std::sync::once_lock::OnceLock::", "core::cell::once::OnceCell::")):
        return once
    if path == "core::iter::adapters::zip::zip":
        return lambda e, f_, a, t, st, s, at, d: (st, A("$zip", to_iter(e, a[0], st), to_iter(e, a[1], st)))
    return None


def to_string(eng, args, st):
    v = eng.deep(args[0], st)
    if strlike(v):
        return st, v
    return st, mk("disp", "$disp", v, UNIT, UNIT, 0)
