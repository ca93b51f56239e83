"""Closed forms of loop recurrences x_0 = init, x_{k+1} = nv(k, x_k)."""
from terms import *
import terms as tm


def at(v, K, e):
    return subst(v, {K: e})


def lag(nv, init, K):
    """x_{k+1} does not depend on x_k"""
    first_ = le0(K)
    prev = at(nv, K, sub(K, ONE))
    return ite(first_, init, prev)


def linear_in(t, p):
    """(a, b) with t = a*p + b, a and b free of p; None otherwise"""
    a, b = {}, {}
    for m, c in poly(t).items():
        dep = [(x, e) for x, e in m if p in x.free]
        if not dep:
            b[m] = c
            continue
        if len(dep) != 1 or dep[0][0] is not p or dep[0][1] != 1:
            return None
        a[tuple(z for z in m if z[0] is not p)] = c
    return frompoly(a), frompoly(b)


def condfree(v, p):
    return all(p not in a.free for a in support(v))


def mapleaves(v, f):
    return lift(("rl", next(tm._fresh)), f, v)


def solve(p, nv, init, K, U):
    if nv is BOT:
        return init
    if nv is p:
        return init
    if isinstance(nv, N) and nv.atom.kind == "b" and nv.atom.args[0] is p and nv.hi is TRUE and nv.lo is FALSE:
        return init
    others = set(u for u in U if u is not p)
    if nv.free & others:
        return None
    if p not in nv.free:
        return lag(nv, init, K)
    if nv.unk:
        return None
    r = _bool(p, nv, init, K)
    if r is not None:
        return r
    ls = [l for l in leaves(nv) if l is not BOT]
    if condfree(nv, p):
        r = _seq(p, nv, ls, init, K) or _numeric(p, nv, ls, init, K) or _overwrite(p, nv, ls, init, K)
        if r is not None:
            return r
    else:
        r = _seq(p, nv, ls, init, K)
        if r is not None:
            return r
    r = _vec(p, nv, init, K)
    if r is not None:
        return r
    return _enum(p, nv, init, K)


def _bool(p, nv, init, K):
    at_ = None
    for a in support(nv):
        if a.kind == "b" and a.args[0] is p:
            at_ = a
        elif p in a.free:
            return None
    if at_ is None:
        return None
    A, B = assign(nv, at_, True), assign(nv, at_, False)
    if p in A.free or p in B.free:
        return None
    for l in leaves(A) + leaves(B):
        if l not in (TRUE, FALSE, BOT):
            return None
    j = fresh_k()
    if A is TRUE:
        return bor(init, anyq(K, j, at(B, K, j)))
    if B is FALSE:
        return band(init, bnot(anyq(K, j, bnot(at(A, K, j)))))
    return None


def _numeric(p, nv, ls, init, K):
    co = []
    for l in ls:
        if l.op in ("cat", "lit", "agg", "upd", "comp", "true", "false", "str", "rec"):
            return None
        ab = linear_in(l, p)
        if ab is None:
            return None
        co.append(ab)
    j = fresh_k()
    if all(a is ONE for a, b in co):
        d = mapleaves(nv, lambda l: BOT if l is BOT else linear_in(l, p)[1])
        return add(init, summ(K, j, at(d, K, j)))
    if all(b is ZERO for a, b in co):
        if any(a is ZERO for a, b in co):
            return None
        d = mapleaves(nv, lambda l: BOT if l is BOT else linear_in(l, p)[0])
        return mul(init, prod(K, j, at(d, K, j)))
    return None


def _seqparts(l, p):
    if l is p:
        return ()
    if l.op == "cat" and l.args[0][0] is p and not any(p in x.free for x in l.args[0][1:]):
        return l.args[0][1:]
    return None


def _seq(p, nv, ls, init, K):
    """appending"""
    if not any(l.op == "cat" for l in ls):
        return None
    ln = mk("len", p)
    if ln in _sub(nv, ln):
        # constant growth per iteration: the length is known
        g = None
        for l in ls:
            ps = l.args[0][1:] if l.op == "cat" and l.args[0][0] is p else None
            if l is p:
                ps = ()
            if ps is None:
                return None
            n = length(cat(*ps)) if ps else ZERO
            if g is None:
                g = n
            if g is not n or p in n.free or K in n.free:
                return None
        nv = replace(nv, {ln: add(length(init), mul(g, K))}, p)
        ls = [l for l in leaves(nv) if l is not BOT]
    if not condfree(nv, p):
        return None
    if any(_seqparts(l, p) is None for l in ls):
        return None
    d = mapleaves(nv, lambda l: BOT if l is BOT else (cat(*_seqparts(l, p)) if l is not p else NIL))
    j = fresh_k()
    return cat(init, flat(K, j, at(d, K, j)))


def _sub(v, what):
    """set containing `what` if it occurs in v"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is what:
            return {what}
        if isinstance(x, N):
            st += [x.hi, x.lo, x.atom]
        else:
            q = list(x.args)
            while q:
                y = q.pop()
                if isinstance(y, tuple):
                    q.extend(y)
                elif isinstance(y, (Val, Atom)):
                    st.append(y)
    return set()


def _overwrite(p, nv, ls, init, K):
    if any(l is not p and p in l.free for l in ls):
        return None
    vals = set(l for l in ls if l is not p)
    j = fresh_k()
    if len(vals) == 1:
        v, = vals
        if K not in v.free:
            c = mapleaves(nv, lambda l: BOT if l is BOT else bool_(l is not p))
            return ite(anyq(K, j, at(c, K, j)), v, init)
    d = mapleaves(nv, lambda l: BOT if l is p else l)
    # leaves p become BOT through a marker, since BOT is absorbed by gating
    c = mapleaves(nv, lambda l: BOT if l is BOT else bool_(l is not p))
    d = mapleaves(nv, lambda l: BOT if l is p or l is BOT else l)
    if isinstance(d, N) or d is not BOT:
        body = tup(c, d)
        return last(K, j, at(body, K, j), init)
    return None


def _klin(i, K):
    """i = K + c with c free of K ?"""
    if isinstance(i, N):
        return None
    d = sub(i, K)
    return d if isinstance(d, T) and K not in d.free else None


def _vec(p, nv, init, K):
    if not isinstance(nv, T):
        # one level of p-free / common structure: all leaves must be updates of p
        ls = leaves(nv)
        if any(l.op != "upd" and l is not p and l is not BOT for l in ls):
            return None
        i = fresh_k("i")
        b = mapleaves(nv, lambda l: BOT if l is BOT else idx(l, i))
        if any(p in a.free for a in support(nv)):
            pass
        return _elementwise(p, b, i, length(init), init, K)
    if nv.op == "upd":
        q, I, V = nv.args
        if q is p:
            c0 = _klin(I, K)
            if c0 is not None:
                X = fresh_phi("x")
                m = {mk("idx", p, I): X, mk("len", p): length(init)}
                W = replace(V, m, p)
                if p not in W.free:
                    i = fresh_k("i")
                    w = subst(W, {K: sub(i, c0), X: idx(init, i)})
                    c = band(le(c0, i, "i"), lt(i, add(K, c0), "i"))
                    return comp(length(init), i, ite(c, w, idx(init, i)))
            if isinstance(I, T) and K not in I.free and p not in I.free:
                # one element changes over and over
                X, j = fresh_phi("x"), fresh_k()
                W = replace(V, {mk("idx", p, I): X, mk("len", p): length(init)}, p)
                if p not in W.free and not W.unk:
                    return upd(init, I, fold(K, j, X, idx(init, I), subst(W, {K: j})))
        i = fresh_k("i")
        return _elementwise(p, idx(nv, i), i, length(init), init, K)
    if nv.op == "comp":
        n = nv.args[0]
        n2 = replace(n, {mk("len", p): length(init)}, p)
        if p in n2.free or K in n2.free:
            return None
        i = fresh_k("i")
        b = openb(nv.args[1], nv.args[2], {"k": i})
        if n2 is length(init):
            return _elementwise(p, b, i, n2, init, K)
        return None
    return None


def _elementwise(p, b, i, n, init, K):
    """x'[i] = b(i, x[i]) for every i < n"""
    X = fresh_phi("x")
    m = {mk("idx", p, i): X, mk("len", p): length(init)}
    if isinstance(i, T):
        tm.UINTS.add(i) if False else None
    b = under_bound(replace(b, m, p), i, n) if isinstance(n, T) else replace(b, m, p)
    if p in b.free:
        return None
    r = _element(X, b, idx(init, i), K)
    if r is None:
        return None
    return comp(n, i, r)


def _element(X, b, init, K):
    """recurrence of one element, component by component when it is an aggregate"""
    r = solve(X, b, init, K, {X})
    if r is not None:
        return r
    ls = [l for l in leaves(b) if l is not BOT]
    if all(l is X or (l.op == "rec" and l.args[0] is X) for l in ls):
        keys = sorted(set(k for l in ls if l.op == "rec" for k, _ in l.args[1]), key=str)
        out = init
        for k in keys:
            if isinstance(k, tuple):
                return None
            P = fresh_phi("x")
            fx = mk("field", X, k)
            nb = replace(field(b, k), {fx: P}, X)
            fi = field(init, k)
            if fx.id in ():
                pass
            if X in nb.free:
                return None
            # booleans
            bits = [a for a in support(field(b, k)) if a.kind == "b" and a.args[0] is fx]
            r = solve(P, nb, fi if not bits else boolatom(fi), K, {P})
            if r is None:
                return None
            out = set_field(out, k, r)
        return out
    return None


def _enum(p, nv, init, K):
    """Option accumulator filled in the first iteration"""
    if not (isinstance(init, T) and init.op == "agg" and init.args[0] in tm.ENUMS):
        return None
    n1 = at(subst(nv, {p: init}), K, ZERO)
    vs = set((l.args[0], l.args[1], len(l.args[2])) if l.op == "agg" else None for l in leaves(n1) if l is not BOT)
    if len(vs) != 1 or None in vs:
        return None
    (ctor, var, nf), = vs
    if nf != 1:
        return None
    q = fresh_phi("x")
    nxt = subst(nv, {p: agg(ctor, var, (q,)), K: add(K, ONE)})
    vs2 = set((l.args[0], l.args[1], len(l.args[2])) if l.op == "agg" else None for l in leaves(nxt) if l is not BOT)
    if vs2 != {(ctor, var, 1)}:
        return None
    i1 = vfield(n1, var, 0)
    r = solve(q, vfield(nxt, var, 0), i1, K, {q})
    if r is None:
        return None
    return ite(le0(K), init, agg(ctor, var, (at(r, K, sub(K, ONE)),)))
