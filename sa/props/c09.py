from ctx import *

PM = "particleswarm::PostMove"


def check(c):
    # move to boundary
    A = "particleswarm::postmove::MoveToBoundary"
    iv = c.sym("intervals")
    new = c.new(A, iv)
    c.nopanic("boundary step is constructed", new)
    lo = lambda k: field(idx(iv, k), 0)
    hi = lambda k: field(idx(iv, k), 1)

    def clamp(x, k):
        v = idx(x, k)
        v = ite(is_finite(v), v, lo(k))
        v = ite(flt(v, lo(k)), lo(k), v)
        return ite(flt(hi(k), v), hi(k), v)
    ivs = forall(length(iv), lambda k: conj(is_finite(lo(k)), is_finite(hi(k)), fle(lo(k), hi(k))))
    dom = lambda x: conj(ieq(length(x), length(iv)), ivs)
    point = lambda s: [c.sym("coordinates" + s)]

    def body(r, a, name, pre):
        x = a[0]
        c.returns(name, r, r.arg(2), vec(length(x), lambda k: clamp(x, k)), conj(pre, dom(x)))
    c.calls("boundary step clamps every coordinate into its interval", c.fn(A, "post_move", PM), new.ret, point, body,
            dom)
    # teleport
    A = "particleswarm::postmove::RandomTeleport"
    p = c.sym("probability")
    new = c.new(A, iv, p)
    okp = conj(fle(ZERO, p), fle(p, ONE))
    oki = forall(length(iv), lambda k: fle(lo(k), hi(k)))
    c.nopanic("teleport step is constructed", new, conj(okp, oki))

    def body(r, a, name, pre):
        x = a[0]
        tele = flt(rdraw(False, "f", ZERO, ONE, "p"), p)
        spec = ite(tele, vec(length(x), lambda k: rdraw(True, "f", lo(k), hi(k), "x", k)), x)
        c.returns(name, r, r.arg(2), spec, conj(pre, dom(x), okp))
    c.calls("teleport replaces all coordinates or none", c.fn(A, "post_move", PM), new.ret, point, body,
            lambda x: conj(dom(x), okp), pre=new.facts)
