from props.lib import *
import bits as bp

M = "genetic::cross::"
T = "genetic::Cross"


def child(ty, a, b, pos):
    """bits below pos from b, the others from a"""
    w = tm.WIDTH[ty]
    ones = num(-1 if ty[0] == "i" else (1 << w) - 1)
    high = tm.bitop("shl", ty, ones, pos)
    if ty[0] == "i":
        low = tm.bitop("shr", ty, num((1 << (w - 1)) - 1), sub(num(w - 1), pos))
    else:
        low = tm.bitop("shr", ty, ones, sub(num(w), pos))
    return tm.bitop("or", ty, tm.bitop("and", ty, a, high), tm.bitop("and", ty, b, low))


def check(c):
    for ty, fl in (("u64", 0), ("u32", 0), ("i16", 0), ("u16", 0), ("i8", 0), ("u8", 0), ("u32", 1), ("u64", 1)):
        name = ("f" if fl else ty[0]) + ty[1:]
        with c.part(name):
            one(c, ty, fl, "cross_" + name)
    with c.part("bitwise"):
        A = M + "CrossBitwise"
        new = c.new(A)
        for fl, ty in (("f64", "u64"), ("f32", "u32")):
            def body(r, a, name, pre):
                p = a[0]
                two = ieq(length(p), num(2))
                c.refuses(name, r, bnot(two), pre)
                pos = rdraw(False, "u", ONE, num(tm.WIDTH[ty]), "pos")
                spec = lit(frombits(ty, child(ty, tobits(ty, idx(p, ZERO)), tobits(ty, idx(p, ONE)), pos)))
                c.ob(name, r, r.ret, spec, pre=conj(pre, two), modes=BITMODES, rounds=20)
            c.calls("bitwise crossing of " + fl, c.fn(A, "cross", T, targs=lambda t: t[-1].get("n") == fl), new.ret,
                    lambda s: [c.sym("parents_%s%s" % (fl, s))], body, lambda p: ieq(length(p), num(2)))
    with c.part("exponent and mantissa"):
        A = M + "FloatCrossExp"
        new = c.new(A)

        def body(r, a, name, pre):
            p = a[0]
            two = ieq(length(p), num(2))
            x, y = idx(p, ZERO), idx(p, ONE)
            c.refuses(name, r, bnot(two), pre)
            man = child("u64", idec(0, x), idec(0, y), rdraw(False, "u", ONE, num(64), "mantissa"))
            exp = child("i16", idec(1, x), idec(1, y), rdraw(False, "u", ONE, num(16), "exponent"))
            sgn = ite(ieq(rdraw(False, "u", ZERO, num(2), "sign"), ZERO), idec(2, x), idec(2, y))
            c.ob(name, r, r.ret, lit(mul(mul(sgn, man), fun("exp2", exp))), pre=conj(pre, two),
                 modes=BITMODES, rounds=20)
        c.calls("exponent and mantissa crossing", c.fn(A, "cross", T), new.ret, lambda s: [c.sym("parents" + s)], body,
                lambda p: ieq(length(p), num(2)))


def tobits(ty, x):
    def f(y):
        r = mk("bits", ty, y)
        tm.UINTS.add(r)
        return r
    return lift(("bits", ty), f, x)


def frombits(ty, x):
    return lift(("frombits", ty), lambda y: mk("frombits", y, ty), x)


def idec(i, x):
    def f(y):
        r = mk("idec", i, y)
        (tm.UINTS if i == 0 else tm.INTS).add(r)
        return r
    return lift(("idec", i), f, x)


def one(c, ty, fl, name):
    w = tm.WIDTH[ty]
    a, b = c.sym("first_" + name, "f64" if fl else ty), c.sym("second_" + name, "f64" if fl else ty)
    pos = c.sym("pos_" + name, "usize")
    f = c.fn(None, M + name)
    r = c.run(f, a, b, pos)
    ret = strip(r.ret)
    if fl and isinstance(ret, T_) and ret.op == "frombits":
        ret = ret.args[0]
        known = True
    else:
        known = not fl
    inputs = {a: w, b: w}
    bad, exact = None, known
    panic = strip(r.may_panic())
    if exact:
        for p in range(1, w):
            m = {pos: num(p)}
            if tm.replace(panic, m) is not FALSE:
                exact = False
                break
            v = bp.bits(tm.replace(ret, m), ty, inputs)
            if v is None:
                exact = False
                break
            for j in range(w):
                want = bp.bit(b if j < p else a, j)
                if v[j] is not want:
                    bad = "position %d: bit %d of the child is %s, not bit %d of the %s parent" % (
                        p, j, show(v[j])[:80], j, "second" if j < p else "first")
                    break
            if bad:
                break
    if exact:
        c.fact("single-point crossing %s, every bit for every position" % name, c.where(r), bad is None, bad)
        return
    A, B = (tobits(ty, a), tobits(ty, b)) if fl else (a, b)
    spec = child(ty, A, B, pos)
    if fl:
        spec = frombits(ty, spec)
    over = {shape_of(pos): lambda S, key: Fraction(1 + S.rnd("pos", key) % (w - 1))}
    if not fl:
        for x in (a, b):
            lo = -(1 << (w - 1)) if ty[0] == "i" else 0
            over[shape_of(x)] = lambda S, key: Fraction(lo + (S.rnd("x", key) << 32 | S.rnd("y", key)) % (1 << w))
    c.returns("single-point crossing " + name, r, r.ret, spec, conj(ile(ONE, pos), ilt(pos, num(w))), over=over)


def shape_of(s):
    return (("sym", s.args[0]),)


T_ = tm.T
