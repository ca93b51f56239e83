"""Random interpretation of value graphs.

A value graph is a pure expression over opaque inputs.  Interpreting two graphs
under the same valuation of their opaque inputs either separates them (they do
not denote the same function, and the valuation is the witness) or leaves them
indistinguishable.  Nothing of the analysed program is executed: the graphs come
from its MIR, and the valuation ranges over the abstract inputs of the graph.
"""
from fractions import Fraction
import hashlib
import math
import time
import struct
import zlib
import itertools
import functools

from terms import *
import terms as tm


class Discard(Exception):
    """the valuation is outside the domain of the graph"""


class Undecided(Exception):
    """the graph contains something without an interpretation"""


class Slow(Exception):
    """the valuation takes too long"""


DEADLINE = float("inf")      # own processor time at which the current valuation is given up
BOTV = ("bot",)
INFV = float("inf")
NANV = float("nan")
NNANV = -NANV
KIND = {}      # shape of an opaque value -> set of kinds it is used as
MAXVAR = {}    # shape -> largest variant tested


def isnum(v):
    return isinstance(v, (Fraction, float)) and not isinstance(v, bool)


def crc(x):
    # a checksum alone is linear: values at neighbouring indices would always differ by the same pattern
    h = zlib.crc32(repr(x).encode())
    h = (h ^ h >> 16) * 0x85ebca6b & 0xffffffff
    h = (h ^ h >> 13) * 0xc2b2ae35 & 0xffffffff
    return h ^ h >> 16


ARGS = {}      # digest -> argument values of an opaque call


def digest(vals):
    d = "#" + hashlib.md5(repr(vals).encode()).hexdigest()[:14]
    ARGS[d] = vals
    return d


def shape(h):
    """key of a handle without indices and arguments"""
    out = []
    k = h[1]
    while True:
        tag = k[0]
        if tag == "field":
            out.append(("field", k[2]))
            k = k[1]
        elif tag == "vfield":
            out.append(("vfield", k[2], k[3]))
            k = k[1]
        elif tag == "idx":
            out.append(("idx",))
            k = k[1]
        elif tag in ("call", "res"):
            if k[1] == "apply":
                f = ARGS[k[2]][0]
                out.append((tag, k[1], shape(f) if isinstance(f, tuple) and f[0] == "h" else "?"))
            else:
                out.append((tag, k[1]))
            break
        elif tag == "evout":
            out.append((tag, k[1], k[2]))
            break
        else:
            out.append(k)
            break
    return tuple(reversed(out))


PALETTE = [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(2), Fraction(-3, 2), Fraction(3),
           Fraction(5, 2), Fraction(50), Fraction(7, 4), Fraction(-4), Fraction(10)]


class Forgetful(dict):
    def __setitem__(self, k, v):
        pass

    def setdefault(self, k, v=None):
        return v


class Sample(object):
    """one valuation of the opaque inputs"""

    def __init__(self, seed, mode=None, over=None):
        self.seed = seed
        self.mode = mode or {}
        self.over = over or {}       # shape -> function(key, rnd) giving a value
        self.memo = {}
        self.alias = None            # draw (site, ks) -> stream key
        self.drawn = {}              # (site, ks, dist) in demand order
        self.draws = {}              # values of the drawn integers
        self.learn = False
        self.steps = 0
        self.cache = {}
        self.force = {}              # inputs with a chosen value
        self.log = None              # comparisons made: (atom, environment, outcome)
        self.reads = None            # numeric inputs read

    # -------------------------------------------------- opaque values
    def rnd(self, *key):
        return crc((self.seed,) + key)

    def need(self, h, kind):
        s = shape(h)
        ks = KIND.setdefault(s, set())
        if kind not in ks:
            ks.add(kind)
            self.learn = True

    def handle(self, key):
        h = ("h", key)
        r = self.cache.get(h)
        if r is not None:
            return r
        r = h
        s = shape(h)
        if s in self.over:
            x = self.over[s](self, key)
            if x is not None:
                r = x
        if r is h:
            k = KIND.get(s)
            if k and "num" in k or k and "int" in k:
                r = self.number(h)
            elif k and "bool" in k:
                r = self.boolean(h)
        self.cache[h] = r
        return r

    def number(self, h):
        if self.reads is not None:
            self.reads.append(h)
        if h in self.force:
            return self.force[h]
        s = KIND.get(shape(h), ())
        r = self.rnd("n", h)
        if "int" in s:
            xs = self.mode.get("ints")
            if xs and r % 4:
                return Fraction(xs[(r >> 9) % len(xs)])
            m = self.mode.get("intmax", 4)
            return Fraction(r % (m + 1))
        sp = self.mode.get("special", 0)
        if sp and r % 100 < sp and (self.mode.get("anywhere") or self.rnd("sp", shape(h)) % 2):
            x = [NANV, INFV, -INFV][(r >> 8) % 3] if not self.mode.get("nanonly") else NANV
            return NNANV if x is NANV and (r >> 12) % 2 else x
        pal = self.mode.get("palette", PALETTE)
        return pal[(r >> 9) % len(pal)]

    def boolean(self, h):
        p = self.mode.get("ptrue", 50)
        return self.rnd("b", h) % 100 < p

    def asnum(self, v, isint_=False):
        if isnum(v):
            return v
        if isinstance(v, bool):
            return Fraction(int(v))
        if v is BOTV or v == BOTV:
            raise Discard("undefined value")
        if isinstance(v, tuple) and v[0] == "h":
            self.need(v, "int" if isint_ else "num")
            return self.number(v)
        raise Undecided("number expected: %r" % (v,))

    def asint(self, v):
        x = self.asnum(v, True)
        if isinstance(x, float):
            raise Discard("not an integer")
        if x.denominator != 1:
            raise Discard("not an integer")
        return int(x)

    def asbool(self, v):
        if isinstance(v, bool):
            return v
        if v == BOTV:
            raise Discard("undefined value")
        if isinstance(v, tuple) and v[0] == "h":
            self.need(v, "bool")
            return self.boolean(v)
        if isnum(v):
            return bool(v)
        raise Undecided("truth value expected")

    def seqlen(self, v):
        if v[0] == "seq":
            return len(v[1])
        if v[0] == "h":
            s = shape(v)
            f = self.over.get(("len",) + s)
            if f is not None:
                return f(self, v[1])
            m = self.mode.get("maxlen", 3)
            c = self.mode.get("len")
            if c is not None:
                return c
            if self.mode.get("perlen"):
                return self.rnd("len", s) % (m + 1)
            return self.rnd("len", v) % (m + 1)
        if v[0] == "text":
            return len(v[1])
        if v[0] == "rec":
            return self.seqlen(v[1])
        if v == BOTV:
            raise Discard("undefined value")
        raise Undecided("sequence expected: %r" % (v,))

    def elem(self, v, i):
        n = self.seqlen(v)
        if not 0 <= i < n:
            return BOTV
        if v[0] == "seq":
            return v[1][i]
        return self.handle(("idx", v[1], i))

    def elems(self, v):
        if not isinstance(v, tuple):
            raise Undecided("sequence expected")
        if v[0] == "seq":
            return v[1]
        if v[0] == "text":
            return v[1]
        return tuple(self.elem(v, i) for i in range(self.seqlen(v)))

    def fieldof(self, v, i):
        if v == BOTV:
            return BOTV
        if not isinstance(v, tuple):
            raise Undecided("aggregate expected")
        if v[0] == "agg":
            f = v[3]
            return f[i] if i < len(f) else BOTV
        if v[0] == "rec":
            for j, x in v[2]:
                if j == i:
                    return x
            return self.fieldof(v[1], i)
        if v[0] == "h":
            return self.handle(("field", v[1], i))
        raise Undecided("aggregate expected")

    def variant(self, v, upto=1):
        if v == BOTV:
            raise Discard("undefined value")
        if not isinstance(v, tuple):
            raise Undecided("enumeration expected")
        if v[0] == "agg":
            return v[2]
        if v[0] == "rec":
            return self.variant(v[1], upto)
        if v[0] == "h":
            s = shape(v)
            self.need(v, "enum")
            if MAXVAR.get(s, 1) < upto:
                MAXVAR[s] = upto
                self.learn = True
            f = self.over.get(("var",) + s)
            if f is not None:
                return f(self, v[1])
            n = MAXVAR.get(s, 1) + 1
            if n == 2:
                return 1 if self.rnd("v", v) % 100 < self.mode.get("psome", 70) else 0
            return self.rnd("v", v) % n
        raise Undecided("enumeration expected")

    def vfieldof(self, v, var, i):
        if v == BOTV:
            return BOTV
        if v[0] == "agg":
            if v[2] != var or i >= len(v[3]):
                return BOTV
            return v[3][i]
        if v[0] == "rec":
            for j, x in v[2]:
                if j == (var, i):
                    return x
            return self.vfieldof(v[1], var, i)
        if v[0] == "h":
            return self.handle(("vfield", v[1], var, i))
        raise Undecided("enumeration expected")

    # -------------------------------------------------- equality
    def eqv(self, a, b):
        if a is b:
            return True
        if a == BOTV or b == BOTV:
            raise Discard("undefined value")
        an, bn = isnum(a), isnum(b)
        if an and bn:
            return numeq(a, b)
        if isinstance(a, bool) or isinstance(b, bool):
            return self.asbool(a) == self.asbool(b)
        if an or bn:
            return numeq(self.asnum(a), self.asnum(b))
        if a[0] == "h" and b[0] == "h":
            if a == b:
                return True
            s, t = KIND.get(shape(a), ()), KIND.get(shape(b), ())
            if "enum" in s and "enum" in t:
                m = max(MAXVAR.get(shape(a), 1), MAXVAR.get(shape(b), 1))
                x, y = self.variant(a, m), self.variant(b, m)
                if x != y:
                    return False
                if x == 0:
                    return True
                return self.eqv(self.vfieldof(a, x, 0), self.vfieldof(b, x, 0))
            return False
        if a[0] == "text" or b[0] == "text":
            x, y = totext(a), totext(b)
            if len(x) != len(y):
                return False
            for p, q in zip(x, y):
                if isinstance(p, str) or isinstance(q, str):
                    if p != q:
                        return False
                elif p[0] == "disp" and q[0] == "disp":
                    if p[1] != q[1] or p[5] != q[5]:
                        return False
                    if not all(self.eqv(u, w) for u, w in zip(p[2:5], q[2:5])):
                        return False
                elif not self.eqv(p, q):
                    return False
            return True
        if a[0] == "seq" or b[0] == "seq":
            x, y = self.elems(a), self.elems(b)
            return len(x) == len(y) and all(self.eqv(p, q) for p, q in zip(x, y))
        if a[0] == "ev" or b[0] == "ev":
            return a[0] == b[0] and a[1] == b[1] and len(a[2]) == len(b[2]) and \
                all(self.eqv(p, q) for p, q in zip(a[2], b[2]))
        if a[0] == "agg" or b[0] == "agg":
            g, o = (a, b) if a[0] == "agg" else (b, a)
            if o[0] == "agg":
                return g[1] == o[1] and g[2] == o[2] and len(g[3]) == len(o[3]) and \
                    all(self.eqv(p, q) for p, q in zip(g[3], o[3]))
            if g[1] in tm.ENUMS or g[2] > 0 or (o[0] == "h" and "enum" in KIND.get(shape(o), ())):
                if self.variant(o, max(g[2], 1)) != g[2]:
                    return False
                return all(self.eqv(p, self.vfieldof(o, g[2], i)) for i, p in enumerate(g[3]))
            return all(self.eqv(p, self.fieldof(o, i)) for i, p in enumerate(g[3]))
        if a[0] == "rec" or b[0] == "rec":
            da = dict(a[2]) if a[0] == "rec" else {}
            db = dict(b[2]) if b[0] == "rec" else {}
            ba = a[1] if a[0] == "rec" else a
            bb = b[1] if b[0] == "rec" else b
            if ba != bb:
                return False
            for i in set(da) | set(db):
                x = self._fo(a, i)
                y = self._fo(b, i)
                if not self.eqv(x, y):
                    return False
            return True
        return a == b

    def _fo(self, v, i):
        return self.vfieldof(v, *i) if isinstance(i, tuple) else self.fieldof(v, i)

    def canon(self, v):
        """argument values of opaque calls in a canonical shape"""
        if not isinstance(v, tuple):
            if isinstance(v, float) and v == v and abs(v) != INFV:
                return round(v, 9)
            if isinstance(v, float) and v != v:
                return NNANV if negative(v) else NANV
            return v
        if v[0] == "seq":
            e = tuple(self.canon(x) for x in v[1])
            if e and all(isinstance(x, tuple) and x[0] == "h" and x[1][0] == "idx" for x in e):
                b = e[0][1][1]
                if all(x[1][1] == b and x[1][2] == i for i, x in enumerate(e)) and \
                        self.seqlen(("h", b)) == len(e):
                    return ("h", b)
            return ("seq", e)
        if v[0] == "agg":
            f = tuple(self.canon(x) for x in v[3])
            if f and v[1] not in tm.ENUMS and v[2] == 0 and all(
                    isinstance(x, tuple) and x[0] == "h" and x[1][0] == "field" for x in f):
                b = f[0][1][1]
                if all(x[1][1] == b and x[1][2] == i for i, x in enumerate(f)):
                    return ("h", b)
            return ("agg", v[1], v[2], f)
        if v[0] == "rec":
            b = self.canon(v[1])
            m = tuple((i, self.canon(x)) for i, x in v[2])
            m = tuple((i, x) for i, x in m if not self._same(x, self._fo(b, i)))
            return ("rec", b, m) if m else b
        if v[0] == "h":
            s = KIND.get(shape(v), ())
            if "num" in s or "int" in s:
                return self.number(v)
            if "enum" in s:
                x = self.variant(v)
                return v
            return v
        if v[0] == "text":
            return v
        return v

    def _same(self, x, y):
        try:
            return self.eqv(x, y)
        except (Discard, Undecided):
            return False

    # -------------------------------------------------- interpretation
    def ev(self, v, env=None):
        if env is None:
            env = {}
        if v.free:
            key = (v.id, tuple(env.get(x, None) for x in sorted(v.free, key=_id)))
        else:
            key = v.id
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > self.mode.get("steps", 400000):
                raise Undecided("valuation too large")
            if not self.steps & 1023 and time.process_time() > DEADLINE:
                raise Slow()
            try:
                r = self._ev(v, env)
            except Discard as e:
                r = ("$discard", e)
            self.memo[key] = r
        if isinstance(r, tuple) and r[0] == "$discard":
            raise r[1]
        return r

    def lz(self, v, env):
        """value of a component that may be undefined"""
        try:
            return self.ev(v, env)
        except Discard:
            return BOTV

    def _ev(self, v, env):
        while isinstance(v, N):
            v = v.hi if self.truth(v.atom, env) else v.lo
        op, a = v.op, v.args
        f = getattr(self, "t_" + op, None)
        if f is None:
            raise Undecided("no interpretation of " + op)
        return f(v, a, env)

    def truth(self, at, env):
        key = ("@", at.id, tuple(env.get(x, None) for x in sorted(at.free, key=_id)))
        r = self.memo.get(key)
        if r is None:
            try:
                r = self._truth(at, env)
                if self.log is not None and at.kind in ("le0", "flt", "feq", "nan", "inf"):
                    self.log.append((at, env, r))
            except Discard as e:
                r = e
            self.memo[key] = r
        if isinstance(r, Discard):
            raise r
        return r

    def num(self, v, env):
        return self.asnum(self.ev(v, env))

    def int(self, v, env):
        return self.asint(self.ev(v, env))

    def _truth(self, at, env):
        k, a = at.kind, at.args
        if k == "le0":
            x = self.ev(a[0], env)
            return self.asnum(x, a[0].op != "num") <= 0
        if k == "nan":
            x = self.num(a[0], env)
            return isinstance(x, float) and x != x
        if k == "inf":
            x = self.num(a[0], env)
            return isinstance(x, float) and abs(x) == INFV
        if k == "feq":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if not isnum(x) and not isnum(y):
                return self.eqv(x, y) if x == y else numeq(self.asnum(x), self.asnum(y))
            return numeq(self.asnum(x), self.asnum(y))
        if k == "flt":
            x, y = self.num(a[0], env), self.num(a[1], env)
            return numlt(x, y)
        if k == "b":
            return self.asbool(self.ev(a[0], env))
        if k == "is":
            return self.variant(self.ev(a[0], env), a[1]) == a[1]
        if k == "any":
            n = self.bound(a[0], env)
            bv = mk("bv", a[1], "k")
            for i in range(64 if n is None else n):
                if self.ev(a[2], dict(env, **{}) if False else _with(env, bv, Fraction(i))) is True:
                    return True
            if n is None:
                raise Discard("unbounded search")
            return False
        raise Undecided("atom " + k)

    def bound(self, n, env):
        if isinstance(n, T) and n.op == "infn":
            return None
        x = self.int(n, env)
        if x > self.mode.get("bound", 400):
            raise Undecided("bound too large")
        return max(x, 0)

    # leaves
    def t_true(self, v, a, env):
        return True

    def t_false(self, v, a, env):
        return False

    def t_bot(self, v, a, env):
        raise Discard("undefined value")

    def t_unk(self, v, a, env):
        raise Undecided("unknown value " + str(a[0]))

    def sym(self, v, env):
        if v in env:
            return env[v]
        h = ("h", (v.op, str(v.args[0])))
        if v in tm.UINTS or v in tm.INTS or v.op == "k":
            self.need(h, "int")
        return self.handle(h[1])

    def t_sym(self, v, a, env):
        return self.sym(v, env)

    def t_k(self, v, a, env):
        return self.sym(v, env)

    def t_phi(self, v, a, env):
        return self.sym(v, env)

    def t_bv(self, v, a, env):
        if v in env:
            return env[v]
        raise Undecided("free bound variable")

    # loops without a closed form are followed iteration by iteration
    def follow(self, rid, vals, env):
        import interp
        rec = interp.LOOPS.get(rid)
        if rec is None:
            raise Undecided("unknown loop")
        if not hasattr(rec, "plain"):
            from decide import strip
            open_ = [l for l in rec.phis if l not in rec.closed]
            rec.plain = (strip(rec.guard), {l: strip(interp.load_path(rec.back.mem[l[0]], l[1])) for l in open_},
                         {l: strip(rec.init[l]) for l in open_}, [strip(c) for c, _, _ in rec.panics],
                         strip(rec.N))
        guard, back, init, panics, bound = rec.plain
        e = {x: self.lz(v, env) for x, v in zip(rec.outer, vals)}
        key = ("loop", rid, tuple(e.values()))
        r = self.memo.get(key)
        if r is None:
            try:
                r = self._follow(rec, guard, back, init, panics, bound, e)
            except (Discard, Undecided) as e:
                r = ("$exc", e)
            self.memo[key] = r
        if r[0] == "$exc":
            raise r[1]
        return r

    def _follow(self, rec, guard, back, init, panics, bound, env):
        n = self.bound(bound, env)
        most = self.mode.get("iters", 3) if n is None else 64
        vals = {l: self.lz(v, env) for l, v in init.items()}
        dead = [False] * len(panics)
        i = 0
        while True:
            e = dict(env)
            e[rec.K] = Fraction(i)
            for l, v in vals.items():
                e[rec.phis[l]] = v
            if n is None or i < n:
                for x, c in enumerate(panics):
                    try:
                        dead[x] = dead[x] or self.asbool(self.ev(c, e))
                    except Discard:
                        pass
            if any(dead):
                return (True, vals, i, dead)
            if n is not None and i >= n:
                return (False, vals, i, dead)
            if not self.asbool(self.ev(guard, e)):
                return (True, vals, i, dead)
            i += 1
            if i > most:
                raise Discard("loop too long")
            vals = {l: self.lz(v, e) for l, v in back.items()}

    def t_loopval(self, v, a, env):
        r = self.follow(a[0], a[2], env)
        for l, x in r[1].items():
            if str(l) == a[1]:
                return self.typed(v, x)
        raise Undecided("loop value")

    def t_trip(self, v, a, env):
        return Fraction(self.follow(a[0], a[1], env)[2])

    def t_early(self, v, a, env):
        return self.follow(a[0], a[1], env)[0]

    def t_looppanic(self, v, a, env):
        return self.follow(a[0], a[2], env)[3][a[1]]

    def t_num(self, v, a, env):
        tot = Fraction(0)
        allint = isint(v)
        for m, c in a[0]:
            t = c
            zero = False
            for x, e in m:
                y = self.asnum(self.ev(x, env), allint or isint(x))
                t = nmul(t, npow(y, e))
            tot = nadd(tot, t)
        return tot

    def t_fconst(self, v, a, env):
        return float(a[0])

    def t_fadd(self, v, a, env):
        return nadd(self.num(a[0], env), self.num(a[1], env))

    def t_fmul(self, v, a, env):
        return nmul(self.num(a[0], env), self.num(a[1], env))

    def t_finv(self, v, a, env):
        return npow(self.num(a[0], env), -1)

    def t_inv(self, v, a, env):
        return npow(self.num(a[0], env), -1)

    def t_agg(self, v, a, env):
        return ("agg", a[0], a[1], tuple(self.lz(x, env) for x in a[2]))

    def t_rec(self, v, a, env):
        b = self.ev(a[0], env)
        m = dict(b[2]) if b[0] == "rec" else {}
        bb = b[1] if b[0] == "rec" else b
        for i, x in a[1]:
            m[i] = self.lz(x, env)
        if bb[0] == "agg":
            f = list(bb[3])
            for i, x in m.items():
                f[i[1] if isinstance(i, tuple) else i] = x
            return ("agg", bb[1], bb[2], tuple(f))
        return ("rec", bb, tuple(sorted(m.items(), key=lambda z: str(z[0]))))

    def t_field(self, v, a, env):
        return self.typed(v, self.fieldof(self.ev(a[0], env), a[1]))

    def t_vfield(self, v, a, env):
        return self.typed(v, self.vfieldof(self.ev(a[0], env), a[1], a[2]))

    def typed(self, v, x):
        if x == BOTV:
            raise Discard("undefined value")
        if isinstance(x, tuple) and x[0] == "h" and (v in tm.UINTS or v in tm.INTS):
            self.need(x, "int")
            return self.number(x)
        if v in tm.UINTS and isinstance(x, Fraction) and (x.denominator != 1 or x < 0):
            raise Discard("not an integer")
        return x

    def t_idx(self, v, a, env):
        s = self.ev(a[0], env)
        i = self.int(a[1], env)
        if not isinstance(s, tuple):
            raise Undecided("sequence expected")
        return self.typed(v, self.elem(s, i))

    def t_len(self, v, a, env):
        return Fraction(self.seqlen(self.ev(a[0], env)))

    def opaque(self, v, tag, *key):
        h = ("h", (tag,) + key)
        if v in tm.UINTS or v in tm.INTS:
            self.need(h, "int")
        return self.handle(h[1])

    def vals(self, vs, env):
        return digest(tuple(self.canon(self.lz(x, env)) for x in vs))

    def t_call(self, v, a, env):
        return self.opaque(v, "call", a[0], self.vals(a[1], env))

    def t_res(self, v, a, env):
        if len(a) < 4:
            raise Undecided("unmodelled result")
        return self.opaque(v, "res", a[0], self.vals(a[3], env))

    def t_evout(self, v, a, env):
        return self.opaque(v, "evout", a[0], a[1], self.vals(a[4], env))

    def t_ev(self, v, a, env):
        return ("ev", a[0], tuple(self.lz(x, env) for x in a[1]))

    def t_fn(self, v, a, env):
        return ("fn", a[0])

    def t_mref(self, v, a, env):
        raise Undecided("reference")

    def t_cst(self, v, a, env):
        c = {"PI": math.pi, "pi": math.pi, "E": math.e, "TAU": 2 * math.pi, "FRAC_PI_2": math.pi / 2,
             "SQRT_2": math.sqrt(2), "EPSILON": Fraction(1, 2 ** 52), "epsilon": Fraction(1, 2 ** 52),
             "MAX": 1.7976931348623157e308, "MIN": -1.7976931348623157e308, "max_value": 1.7976931348623157e308,
             "min_value": -1.7976931348623157e308, "MIN_POSITIVE": Fraction(1, 2 ** 1022),
             "min_positive_value": Fraction(1, 2 ** 1022), "LN_2": math.log(2), "LN_10": math.log(10),
             "FRAC_PI_4": math.pi / 4, "FRAC_1_SQRT_2": math.sqrt(.5)}.get(a[0])
        if c is None:
            raise Undecided("constant " + a[0])
        return c

    # sequences
    def t_lit(self, v, a, env):
        return ("seq", tuple(self.lz(x, env) for x in a[0]))

    def t_comp(self, v, a, env):
        n = self.bound(a[0], env)
        bv = mk("bv", a[1], "k")
        return ("seq", tuple(self.lz(a[2], _with(env, bv, Fraction(i))) for i in range(n)))

    def join(self, parts):
        if any(isinstance(p, tuple) and p[0] == "text" for p in parts):
            out = []
            for p in parts:
                if p == BOTV:
                    raise Discard("undefined value")
                for x in totext(p):
                    if isinstance(x, str) and out and isinstance(out[-1], str):
                        out[-1] += x
                    elif x != "":
                        out.append(x)
            return ("text", tuple(out))
        out = []
        for p in parts:
            if p == BOTV:
                raise Discard("undefined value")
            out.extend(self.elems(p))
        return ("seq", tuple(out))

    def t_cat(self, v, a, env):
        ps = [self.ev(x, env) for x in a[0]]
        return self.join(ps)

    def t_flat(self, v, a, env):
        n = self.bound(a[0], env)
        bv = mk("bv", a[1], "k")
        return self.join([self.ev(a[2], _with(env, bv, Fraction(i))) for i in range(n)])

    def t_upd(self, v, a, env):
        s = list(self.elems(self.ev(a[0], env)))
        i = self.int(a[1], env)
        if not 0 <= i < len(s):
            raise Discard("index")
        s[i] = self.lz(a[2], env)
        return ("seq", tuple(s))

    def t_take(self, v, a, env):
        return ("seq", tuple(self.elems(self.ev(a[0], env))[:max(0, self.int(a[1], env))]))

    def t_str(self, v, a, env):
        return ("text", (a[0],) if a[0] else ())

    def t_disp(self, v, a, env):
        def o(x):
            return self.ev(x, env)
        return ("text", (("disp", a[0], o(a[1]), o(a[2]), o(a[3]), a[4]),))

    # binders
    def t_sum(self, v, a, env):
        n = self.bound(a[0], env)
        bv = mk("bv", a[1], "k")
        r = Fraction(0)
        for i in range(n):
            r = nadd(r, self.num(a[2], _with(env, bv, Fraction(i))))
        return r

    def t_prod(self, v, a, env):
        n = self.bound(a[0], env)
        bv = mk("bv", a[1], "k")
        r = Fraction(1)
        for i in range(n):
            r = nmul(r, self.num(a[2], _with(env, bv, Fraction(i))))
        return r

    def t_first(self, v, a, env):
        n = self.bound(a[0], env)
        bv = mk("bv", a[1], "k")
        for i in range(64 if n is None else n):
            if self.ev(a[2], _with(env, bv, Fraction(i))) is True:
                return Fraction(i)
        raise Discard("no first")

    def t_last(self, v, a, env):
        n = self.bound(a[0], env)
        bv = mk("bv", a[1], "k")
        for i in reversed(range(n)):
            t = self.ev(a[2], _with(env, bv, Fraction(i)))
            if self.fieldof(t, 0) is True:
                return self.fieldof(t, 1)
        return self.ev(a[3], env)

    def t_fold(self, v, a, env):
        n = self.bound(a[0], env)
        if n is None:
            raise Undecided("unbounded fold")
        bk, ba = mk("bv", a[1], "k"), mk("bv", a[1], "a")
        r = self.ev(a[3], env)
        for i in range(n):
            e = _with(env, bk, Fraction(i))
            e[ba] = r
            r = self.ev(a[2], e)
        return r

    t_foldb = t_fold

    def t_reduce(self, v, a, env):
        n = self.bound(a[0], env)
        bk, ba = mk("bv", a[1], "k"), mk("bv", a[1], "a")
        acc = None
        for i in range(n):
            e = _with(env, bk, Fraction(i))
            if self.ev(a[4], e) is not True:
                continue
            if acc is None:
                acc = (self.ev(a[2], e),)
            else:
                e[ba] = acc[0]
                acc = (self.ev(a[3], e),)
        if acc is None:
            raise Discard("empty reduction")
        return acc[0]

    def cmpf(self, v, a, env):
        bx, by = mk("bv", a[1], "x"), mk("bv", a[1], "y")

        def c(x, y):
            e = _with(env, bx, x)
            e[by] = y
            return self.variant(self.ev(a[2], e), 2) - 1
        return c

    def t_sortby(self, v, a, env):
        c = self.cmpf(v, a, env)
        out = []
        for x in self.elems(self.ev(a[0], env)):
            j = len(out)
            while j > 0 and c(x, out[j - 1]) < 0:
                j -= 1
            out.insert(j, x)
        return ("seq", tuple(out))

    def t_minby(self, v, a, env):
        c = self.cmpf(v, a, env)
        s = self.elems(self.ev(a[0], env))
        if not s:
            raise Discard("minimum of nothing")
        r = s[0]
        for x in s[1:]:
            if c(r, x) > 0:
                r = x
        return r

    def t_maxby(self, v, a, env):
        c = self.cmpf(v, a, env)
        s = self.elems(self.ev(a[0], env))
        if not s:
            raise Discard("maximum of nothing")
        r = s[0]
        for x in s[1:]:
            if c(r, x) <= 0:
                r = x
        return r

    # random draws
    def t_udist(self, v, a, env):
        return ("udist", a[0], a[1], self.num(a[2], env), self.num(a[3], env))

    def t_draw(self, v, a, env):
        d = self.ev(a[0], env)
        ks = tuple(self.int(k, env) for k in a[2])
        _, incl, kd, lo, hi = d
        for x in (lo, hi):
            if isinstance(x, float) and (x != x or abs(x) == INFV):
                raise Discard("range")
        if lo > hi or (lo == hi and not incl):
            raise Discard("empty range")
        key = (a[1], ks, d)
        self.drawn.setdefault(key, len(self.drawn))
        s = ("same", d) if self.mode.get("samedraw") else self.alias(key) if self.alias else key
        r = self.rnd("draw", s)
        if kd in ("u", "i"):
            n = int(hi) - int(lo) + (1 if incl else 0)
            self.draws[key] = Fraction(int(lo) + (r >> 5) % n)
            return self.draws[key]
        t = Fraction((r >> 5) % 17, 16) if incl else Fraction((r >> 5) % 16, 16)
        if isinstance(lo, float) or isinstance(hi, float):
            return float(lo) + float(t) * (float(hi) - float(lo))
        return lo + t * (hi - lo)

    # numeric functions
    def f1(self, fn, a, env):
        x = self.num(a[0], env)
        try:
            return fn(float(x))
        except ValueError:
            return NANV
        except OverflowError:
            return INFV

    def t_sin(self, v, a, env):
        return self.f1(math.sin, a, env)

    def t_cos(self, v, a, env):
        return self.f1(math.cos, a, env)

    def t_tan(self, v, a, env):
        return self.f1(math.tan, a, env)

    def t_ln(self, v, a, env):
        return self.f1(lambda x: math.log(x) if x > 0 else (-INFV if x == 0 else NANV), a, env)

    def t_exp(self, v, a, env):
        return self.f1(math.exp, a, env)

    def t_exp2(self, v, a, env):
        x = self.num(a[0], env)
        if isinstance(x, Fraction) and x.denominator == 1 and abs(x) < 4000:
            return Fraction(2) ** int(x)
        return self.f1(lambda y: 2.0 ** y, a, env)

    def t_sqrt(self, v, a, env):
        x = self.num(a[0], env)
        if isinstance(x, Fraction):
            if x < 0:
                return NANV
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            return math.sqrt(x)
        return math.sqrt(x) if x >= 0 else NANV

    def t_abs(self, v, a, env):
        return abs(self.num(a[0], env))

    def t_pow(self, v, a, env):
        x, y = self.num(a[0], env), self.num(a[1], env)
        if isinstance(y, Fraction) and y.denominator == 1 and isinstance(x, Fraction) and abs(y) < 200:
            return npow(x, int(y))
        try:
            r = float(x) ** float(y)
            return NANV if isinstance(r, complex) else r
        except ZeroDivisionError:
            return INFV
        except OverflowError:
            return INFV

    def rounder(self, fn, a, env):
        x = self.num(a[0], env)
        if isinstance(x, float) and (x != x or abs(x) == INFV):
            return x
        return Fraction(fn(x))

    def t_floor(self, v, a, env):
        return self.rounder(math.floor, a, env)

    def t_ceil(self, v, a, env):
        return self.rounder(math.ceil, a, env)

    def t_trunc(self, v, a, env):
        return self.rounder(math.trunc, a, env)

    def t_round(self, v, a, env):
        return self.rounder(lambda x: math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2)),
                            a, env)

    def t_frem(self, v, a, env):
        x, y = self.num(a[0], env), self.num(a[1], env)
        if y == 0:
            return NANV
        if isinstance(x, float) or isinstance(y, float):
            return math.fmod(float(x), float(y))
        q = math.trunc(x / y)
        return x - q * y

    def t_signum(self, v, a, env):
        x = self.num(a[0], env)
        if isinstance(x, float) and x != x:
            return x
        return Fraction(-1 if x < 0 else 1)

    def t_signbit(self, v, a, env):
        return negative(self.num(a[0], env))

    def t_copysign(self, v, a, env):
        x, y = self.num(a[0], env), self.num(a[1], env)
        return -abs(x) if negative(y) else abs(x)

    def t_r32(self, v, a, env):
        x = self.num(a[0], env)
        if isinstance(x, float):
            return x
        try:
            return Fraction(struct.unpack("<f", struct.pack("<f", float(x)))[0])
        except OverflowError:
            return INFV if x > 0 else -INFV

    def t_f2i(self, v, a, env):
        x = self.num(a[1], env)
        if isinstance(x, float):
            if x != x or abs(x) == INFV:
                return Fraction(0)
            x = Fraction(x)
        return Fraction(math.trunc(x))

    def t_idiv(self, v, a, env):
        x, y = self.int(a[0], env), self.int(a[1], env)
        if y == 0:
            raise Discard("division by zero")
        q = abs(x) // abs(y)
        return Fraction(q if (x < 0) == (y < 0) else -q)

    def t_irem(self, v, a, env):
        x, y = self.int(a[0], env), self.int(a[1], env)
        if y == 0:
            raise Discard("division by zero")
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        return Fraction(x - q * y)

    def t_bits(self, v, a, env):
        x = self.num(a[1], env)
        fl = float(x)
        if a[0] == "u32":
            return Fraction(struct.unpack("<I", struct.pack("<f", fl))[0])
        return Fraction(struct.unpack("<Q", struct.pack("<d", fl))[0])

    def t_frombits(self, v, a, env):
        x = self.int(a[0], env)
        if a[1] == "u32":
            r = struct.unpack("<f", struct.pack("<I", x & 0xffffffff))[0]
        else:
            r = struct.unpack("<d", struct.pack("<Q", x & 0xffffffffffffffff))[0]
        return r if r != r or abs(r) == INFV else Fraction(r)

    def t_idec(self, v, a, env):
        x = self.num(a[1], env)
        fl = float(x)
        if fl != fl or abs(fl) == INFV:
            raise Discard("not finite")
        b = struct.unpack("<Q", struct.pack("<d", fl))[0]
        s = 1 if b >> 63 == 0 else -1
        e = (b >> 52) & 0x7ff
        m = (b & 0xfffffffffffff) << 1 if e == 0 else (b & 0xfffffffffffff) | 0x10000000000000
        return Fraction((m, e - 1075, s)[a[0]])

    def t_bit(self, v, a, env):
        op, ty = a[0], a[1]
        if ty not in tm.WIDTH:
            raise Undecided("bit width of " + ty)
        w = tm.WIDTH[ty]
        x = [self.int(y, env) for y in a[2:]]
        mask = (1 << w) - 1
        if op == "not":
            r = ~x[0]
        elif op == "and":
            r = x[0] & x[1]
        elif op == "or":
            r = x[0] | x[1]
        elif op == "xor":
            r = x[0] ^ x[1]
        elif op in ("shl", "shr"):
            if not 0 <= x[1] < w:
                raise Discard("shift")
            r = x[0] << x[1] if op == "shl" else x[0] >> x[1]
        elif op == "cast":
            r = x[0]
        else:
            raise Undecided("bit operation " + op)
        r &= mask
        if ty[0] == "i" and r >> (w - 1):
            r -= 1 << w
        return Fraction(r)

    def t_sizeof(self, v, a, env):
        return self.opaque(v, "sizeof", a[0])

    def t_eq(self, v, a, env):
        return self.eqv(self.ev(a[0], env), self.ev(a[1], env))

    def t_dd(self, v, a, env):
        return self.ev(a[0], env)


def _id(x):
    return x.id


def _with(env, k, x):
    e = dict(env)
    e[k] = x
    return e


def totext(v):
    if v[0] == "text":
        return v[1]
    if v[0] == "seq" and not v[1]:
        return ()
    return (v,)


def negative(x):
    """the sign of a value; a NaN has one, too"""
    return math.copysign(1.0, x) < 0 if isinstance(x, float) and x != x else x < 0


def numeq(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    x, y = fl(a), fl(b)
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    if abs(x) == INFV or abs(y) == INFV:
        return False
    return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))


def fl(x):
    try:
        return float(x)
    except OverflowError:
        return INFV if x > 0 else -INFV


def numlt(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a < b
    x, y = fl(a), fl(b)
    if x != y and abs(x) != INFV and abs(y) != INFV and abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
        raise Discard("too close")
    return x < y


def nadd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return fl(a) + fl(b)


def nmul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    return fl(a) * fl(b)


def npow(x, e):
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
    if isinstance(e, int):
        if isinstance(x, Fraction):
            if x == 0 and e < 0:
                return INFV
            return x ** e
        try:
            return x ** e
        except ZeroDivisionError:
            return INFV
        except OverflowError:
            return INFV
    try:
        r = fl(x) ** float(e)
        return NANV if isinstance(r, complex) else r
    except ZeroDivisionError:
        return INFV
    except OverflowError:
        return INFV


def show_val(v, d=0):
    if isinstance(v, Fraction):
        return str(v)
    if not isinstance(v, tuple):
        return str(v)
    if d > 8:
        return "..."
    if v[0] == "seq":
        return "[" + ", ".join(show_val(x, d + 1) for x in v[1]) + "]"
    if v[0] == "agg":
        n = v[1].split("::")[-1]
        if v[1] == tm.OPT:
            return "None" if v[2] == 0 else "Some(%s)" % show_val(v[3][0], d + 1)
        return "%s%s(%s)" % ("" if n == "tuple" else n, "" if not v[2] else "#%d" % v[2],
                             ", ".join(show_val(x, d + 1) for x in v[3]))
    if v[0] == "h":
        return show_key(v[1], d)
    if v[0] == "rec":
        return show_val(v[1], d + 1) + "{" + ", ".join("%s=%s" % (i, show_val(x, d + 1)) for i, x in v[2]) + "}"
    if v[0] == "ev":
        return "%s(%s)" % (v[1], ", ".join(show_val(x, d + 1) for x in v[2]))
    if v[0] == "text":
        return "".join(x if isinstance(x, str) else "{%s}" % (show_val(x[2], d + 1) if x[0] == "disp" else
                                                               show_val(x, d + 1)) for x in v[1])
    return str(v)


def show_key(k, d=0):
    if d > 8:
        return "..."
    if k[0] == "field":
        return show_key(k[1], d + 1) + ".%s" % k[2]
    if k[0] == "vfield":
        return show_key(k[1], d + 1) + ".v%s.%s" % (k[2], k[3])
    if k[0] == "idx":
        return show_key(k[1], d + 1) + "[%s]" % k[2]
    if k[0] in ("call", "res"):
        return "%s(%s)" % (k[1], ", ".join(show_val(x, d + 1) for x in ARGS[k[2]]))
    if k[0] == "evout":
        return "%s'(%s)" % (k[1], ", ".join(show_val(x, d + 1) for x in ARGS[k[3]]))
    return str(k[1])
