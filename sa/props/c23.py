from ctx import *


def check(c):
    x = c.sym("x")
    n = length(x)
    sq = lambda v: mul(v, v)
    with c.part("paraboloid"):
        r = c.run(c.fn(None, "paraboloid"), x)
        c.returns("paraboloid is the sum of (x_i - i)^2 over all i = 1..n", r, r.ret,
                  sigma(n, lambda k: sq(sub(idx(x, k), add(k, ONE)))))
    with c.part("schwefel"):
        r = c.run(c.fn(None, "schwefel"), x)
        c.returns("schwefel is 418.9829 n - sum x_i sin sqrt |x_i|", r, r.ret,
                  sub(mul(num(418.9829), n),
                      sigma(n, lambda k: mul(idx(x, k), fun("sin", sqrt(fabs(idx(x, k))))))))
    with c.part("rastrigin"):
        r = c.run(c.fn(None, "rastrigin"), x)
        pi = num(3.14159265358979)
        c.returns("rastrigin is 10 n + sum (x_i^2 - 10 cos 2 pi x_i)", r, r.ret,
                  add(mul(num(10), n), sigma(n, lambda k: sub(sq(idx(x, k)), mul(num(10), fun(
                      "cos", mul(mul(num(2), pi), idx(x, k))))))))
    with c.part("rosenbrock"):
        r = c.run(c.fn(None, "rosenbrock"), x)
        c.returns("rosenbrock sums 100 (x_{i+1} - x_i^2)^2 + (1 - x_i)^2 over all neighbours", r, r.ret,
                  sigma(nonneg_part(sub(n, ONE)), lambda k: add(
                      mul(num(100), sq(sub(idx(x, add(k, ONE)), sq(idx(x, k))))), sq(sub(ONE, idx(x, k))))))
