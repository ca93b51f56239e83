"""Bit provenance: the bits of an integer value as decision diagrams over the bits of its inputs.

Exact for and, or, xor, not, shifts by known amounts, casts, additions and bounded loops; None when the value depends
on its inputs in another way."""
from terms import *
import terms as tm


def bit(x, j):
    """bit j of an opaque input"""
    return node(atom("b", mk("call", "$bit", (x, num(j)))), TRUE, FALSE)


def width(ty):
    return tm.WIDTH.get(ty)


def const_bits(c, w):
    c = int(c) & ((1 << w) - 1)
    return [bool_(bool(c >> j & 1)) for j in range(w)]


def ripple(a, b, cin):
    out, c = [], cin
    for x, y in zip(a, b):
        s = xor(xor(x, y), c)
        c = bor(band(x, y), band(c, bor(x, y)))
        out.append(s)
    return out


def xor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bits(v, ty, inputs):
    """list of the bits of v (least significant first) read as type ty, or None"""
    w = width(ty)
    if isinstance(v, N):
        hi, lo = bits(v.hi, ty, inputs), bits(v.lo, ty, inputs)
        if hi is None or lo is None:
            return None
        c = node(v.atom, TRUE, FALSE)
        return [bor(band(c, x), band(bnot(c), y)) for x, y in zip(hi, lo)]
    c = const(v)
    if c is not None:
        return const_bits(c, w)
    if v in inputs:
        n = inputs[v]
        b = [bit(v, j) for j in range(n)]
        return extend(b, w, signed=False)
    if v.op == "bits":
        return bits(v.args[1], v.args[0], inputs) if v.args[1] in inputs else None
    if v.op == "fold":
        n = const(v.args[0])
        if n is None or n > 128:
            return None
        acc = v.args[3]
        for i in range(int(n)):
            acc = openb(v.args[1], v.args[2], {"k": num(i), "a": acc})
        return bits(acc, ty, inputs)
    if v.op == "num":
        out = None
        for m, c in v.args[0]:
            if len(m) > 1 or (m and m[0][1] != 1) or c.denominator != 1:
                return None
            t = const_bits(1, w) if not m else bits(m[0][0], ty, inputs)
            if t is None:
                return None
            c = int(c) & ((1 << w) - 1)
            for j in range(w):
                if c >> j & 1:
                    sh = [FALSE] * j + t[:w - j]
                    out = sh if out is None else ripple(out, sh, FALSE)
        return out
    if v.op != "bit":
        return None
    op, vt = v.args[0], v.args[1]
    vw = width(vt)
    if vw is None:
        return None
    x = v.args[2:]
    if op in ("shl", "shr"):
        k = const(x[1])
        a = bits(x[0], vt, inputs)
        if k is None or a is None or not 0 <= k < vw:
            return None
        k = int(k)
        if op == "shl":
            r = [FALSE] * k + a[:vw - k]
        else:
            r = a[k:] + [a[-1] if vt[0] == "i" else FALSE] * k
    elif op == "not":
        a = bits(x[0], vt, inputs)
        r = None if a is None else [bnot(y) for y in a]
    elif op == "cast":
        r = bits(x[0], vt, inputs)
    elif op in ("and", "or", "xor"):
        a, b = bits(x[0], vt, inputs), bits(x[1], vt, inputs)
        if a is None or b is None:
            return None
        f = {"and": band, "or": bor, "xor": xor}[op]
        r = [f(p, q) for p, q in zip(a, b)]
    else:
        return None
    return None if r is None else extend(r, w, vt[0] == "i")


def extend(b, w, signed):
    if len(b) >= w:
        return b[:w]
    return b + [b[-1] if signed else FALSE] * (w - len(b))
