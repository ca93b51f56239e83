"""Hash-consed gated value graphs.

A *value* is a decision diagram (class N) over condition atoms (class Atom)
whose leaves are terms (class T).  Booleans are diagrams with leaves TRUE and
FALSE.  Terms are normalised by smart constructors: numbers are multivariate
polynomials (ring normal form), vectors are comprehensions / concatenations /
point updates, loops are sums, products, quantifiers, first-index terms or
generic folds.  Two values that are the same object are equal programs values
for every input (global value numbering).
"""
from fractions import Fraction
import itertools

_tab = {}
_ids = itertools.count(1)
EMPTY = frozenset()
ENUMS = {"core::option::Option", "core::result::Result", "core::cmp::Ordering"}
UINTS = set()   # terms known to be unsigned integers
INTS = set()    # terms known to be integers
NOTNAN = set()  # float terms known to be finite (random draws)


class Val(object):
    __slots__ = ("id", "unk", "free", "h", "gen")

    def __repr__(self):
        return show(self)


class T(Val):
    __slots__ = ("op", "args")


class N(Val):
    __slots__ = ("atom", "hi", "lo")


class Atom(object):
    __slots__ = ("id", "unk", "free", "h", "kind", "args", "gen")

    def __repr__(self):
        return show_atom(self)


def _scan(args):
    """(unknown?, free bound-capable symbols, binder height, generic loop?)"""
    unk, free, h, gen = False, EMPTY, 0, False
    st = list(args)
    while st:
        a = st.pop()
        if isinstance(a, (Val, Atom)):
            unk = unk or a.unk
            gen = gen or a.gen
            if a.free:
                free = free | a.free if free else a.free
            if a.h > h:
                h = a.h
        elif isinstance(a, tuple):
            st.extend(a)
    return unk, free, h, gen


BINDERS = {"comp", "flat", "sum", "prod", "first", "fold", "sortby", "reduce", "vsum", "last",
           "minby", "maxby", "foldb"}


def _fill(o, key, op, args):
    unk, free, h, gen = _scan(args)
    if op in BINDERS or op == "any":
        lv = args[1]
        free = frozenset(x for x in free if not (x.op == "bv" and x.args[0] == lv))
        h = max(h, lv)
    if op in ("k", "phi", "bv"):
        free = free | {o}
    if op == "unk":
        unk = True
    if op in ("fold", "foldb", "loopval"):
        gen = True
    o.unk, o.free, o.h, o.gen = unk, free, h, gen
    o.id = next(_ids)
    _tab[key] = o
    return o


def mk(op, *args):
    key = (op, args)
    o = _tab.get(key)
    if o is None:
        o = T()
        o.op, o.args = op, args
        _fill(o, key, op, args)
    return o


def atom(kind, *args):
    key = ("@", kind, args)
    o = _tab.get(key)
    if o is None:
        o = Atom()
        o.kind, o.args = kind, args
        _fill(o, key, kind, args)
    return o


TRUE = mk("true")
FALSE = mk("false")
BOT = mk("bot")
UNIT = mk("agg", "tuple", 0, ())


def unk(reason, *args):
    return mk("unk", reason, tuple(args))


# ---------------------------------------------------------------- diagrams
def node(a, hi, lo):
    """Node with children known to be below atom a (or leaves)."""
    if hi is lo:
        return hi
    if hi is BOT:
        return lo
    if lo is BOT:
        return hi
    if isinstance(hi, T) and isinstance(lo, T):
        m = _merge(a, hi, lo)
        if m is not None:
            return m
    key = ("?", a, hi, lo)
    o = _tab.get(key)
    if o is None:
        o = N()
        o.atom, o.hi, o.lo = a, hi, lo
        o.unk = a.unk or hi.unk or lo.unk
        o.gen = a.gen or hi.gen or lo.gen
        o.free = a.free | hi.free | lo.free
        o.h = max(a.h, hi.h, lo.h)
        o.id = next(_ids)
        _tab[key] = o
    return o


def _merge(a, hi, lo):
    c = None
    if hi.op == "agg" and lo.op == "agg":
        if hi.args[:2] == lo.args[:2] and len(hi.args[2]) == len(lo.args[2]):
            if not hi.args[2]:
                return None
            c = node(a, TRUE, FALSE)
            return agg(hi.args[0], hi.args[1],
                       [ite(c, x, y) for x, y in zip(hi.args[2], lo.args[2])])
        return None
    if hi.op == "rec" or lo.op == "rec":
        bh = hi.args[0] if hi.op == "rec" else hi
        bl = lo.args[0] if lo.op == "rec" else lo
        if bh is bl:
            c = node(a, TRUE, FALSE)
            idxs = set(i for x in (hi, lo) if x.op == "rec" for i, _ in x.args[1])
            r = bh
            for i in sorted(idxs):
                r = set_field(r, i, ite(c, field(hi, i), field(lo, i)))
            return r
    for x, y in ((hi, lo), (lo, hi)):
        if x.op == "agg" and x.args[0] not in ENUMS and not x.args[0].startswith("closure") \
                and y.op in ("rec", "sym", "field", "idx", "res", "vfield", "phi") and x.args[2]:
            c = node(a, TRUE, FALSE)
            return agg(x.args[0], x.args[1],
                       [ite(c, field(hi, i), field(lo, i)) for i in range(len(x.args[2]))])
    if hi.op == "upd" or lo.op == "upd":
        u = hi if hi.op == "upd" else lo
        s, i = u.args[0], u.args[1]
        oth = lo if u is hi else hi
        if oth is s or (oth.op == "upd" and oth.args[0] is s and oth.args[1] is i):
            c = node(a, TRUE, FALSE)
            return upd(s, i, ite(c, idx(hi, i), idx(lo, i)))
    if hi.op == "mdict" and lo.op == "mdict":
        return None
    return None


_ite_memo = {}


_NONNUM = ("true", "false", "bot", "agg", "rec", "lit", "cat", "comp", "flat", "upd", "take", "mref", "str", "unk", "ev",
           "fn", "closure", "fconst")


def ite(c, a, b):
    if c is TRUE or c is BOT:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.hi is TRUE and c.lo is FALSE and c.atom.kind == "le0" and isinstance(a, T) and isinstance(b, T) \
            and a.op not in _NONNUM and b.op not in _NONNUM:
        # at the boundary both integers agree: x < y and x <= y choose the same
        p = c.atom.args[0]
        d = _add(a, _neg(b))
        q = _add(p, num(-1))
        if (d is q or _neg(d) is q) and const(a) is None and const(b) is None:
            r = ite(le0(q), a, b)
            _ite_memo[key] = r
            return r
    top = c.atom
    if isinstance(a, N) and a.atom.id < top.id:
        top = a.atom
    if isinstance(b, N) and b.atom.id < top.id:
        top = b.atom
    c1, c0 = _cof(c, top)
    a1, a0 = _cof(a, top)
    b1, b0 = _cof(b, top)
    r = node(top, ite(c1, a1, b1), ite(c0, a0, b0))
    _ite_memo[key] = r
    return r


def _cof(v, a):
    if isinstance(v, N) and v.atom is a:
        return v.hi, v.lo
    return v, v


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def bool_(x):
    return TRUE if x else FALSE


_lift_memo = {}


def lift(name, f, *vals):
    """Apply leaf function f through the diagrams of vals."""
    for v in vals:
        if v is BOT:
            return BOT
    if not any(isinstance(v, N) for v in vals):
        return f(*vals)
    key = (name, vals)
    r = _lift_memo.get(key)
    if r is not None:
        return r
    top = None
    for v in vals:
        if isinstance(v, N) and (top is None or v.atom.id < top.id):
            top = v.atom
    h, l = [], []
    for v in vals:
        x, y = _cof(v, top)
        h.append(x)
        l.append(y)
    c = node(top, TRUE, FALSE)
    r = ite(c, lift(name, f, *h), lift(name, f, *l))
    _lift_memo[key] = r
    return r


def support(v, acc=None):
    if acc is None:
        acc = {}
    st, seen = [v], set()
    while st:
        x = st.pop()
        if isinstance(x, N) and x not in seen:
            seen.add(x)
            acc[x.atom] = True
            st.append(x.hi)
            st.append(x.lo)
    return acc


def leaves(v):
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, N):
            st.append(x.lo)
            st.append(x.hi)
        else:
            out.append(x)
    return out


def paths(v, pre=()):
    """All (literals, leaf) pairs of a diagram."""
    if isinstance(v, N):
        for x in paths(v.hi, pre + ((v.atom, True),)):
            yield x
        for x in paths(v.lo, pre + ((v.atom, False),)):
            yield x
    else:
        yield pre, v


def assign(v, a, val):
    """Cofactor of the diagram with atom a fixed (leaves untouched)."""
    memo = {}

    def go(x):
        if not isinstance(x, N):
            return x
        r = memo.get(x)
        if r is None:
            if x.atom is a:
                r = x.hi if val else x.lo
            else:
                r = ite(node(x.atom, TRUE, FALSE), go(x.hi), go(x.lo))
            memo[x] = r
        return r
    return go(v)


_res_memo = {}


def restrict(v, c):
    """Simplify v knowing c holds (generalised cofactor)."""
    if c is TRUE or c is FALSE:
        return v
    if isinstance(v, T):
        if v.op == "agg" and v.args[2] and not v.args[0].startswith("closure"):
            return agg(v.args[0], v.args[1], [restrict(x, c) for x in v.args[2]])
        return v
    key = (v, c)
    r = _res_memo.get(key)
    if r is not None:
        return r
    if c.atom.id < v.atom.id:
        r = restrict(v, bor(c.hi, c.lo))
    elif c.atom is v.atom:
        if c.lo is FALSE:
            r = restrict(v.hi, c.hi)
        elif c.hi is FALSE:
            r = restrict(v.lo, c.lo)
        else:
            r = ite(node(v.atom, TRUE, FALSE), restrict(v.hi, c.hi), restrict(v.lo, c.lo))
    else:
        r = ite(node(v.atom, TRUE, FALSE), restrict(v.hi, c), restrict(v.lo, c))
    _res_memo[key] = r
    return r


def literals(c):
    """Atoms whose value is forced by c."""
    out = {}
    if isinstance(c, T):
        return out
    for a in support(c):
        if assign(c, a, True) is FALSE:
            out[a] = False
        elif assign(c, a, False) is FALSE:
            out[a] = True
    return out


# ---------------------------------------------------------------- aggregates
def agg(ctor, variant, fields):
    return mk("agg", ctor, variant, tuple(fields))


def tup(*f):
    return agg("tuple", 0, f)


OPT = "core::option::Option"
RES = "core::result::Result"
NONE = agg(OPT, 0, ())


def some(v):
    return agg(OPT, 1, (v,))


def is_variant(v, k):
    return lift(("isv", k), lambda t: _is_variant(t, k), v)


def _is_variant(t, k):
    if t.op == "agg":
        return bool_(t.args[1] == k)
    if t.op == "rec":
        return _is_variant(t.args[0], k)
    if t.op == "unk":
        return node(atom("b", unk("variant", t, k)), TRUE, FALSE)
    if k == 0:
        # first variant: none of the others
        n = NVARIANTS.get(t, 2)
        r = TRUE
        for j in range(1, n):
            r = band(r, bnot(_is_variant(t, j)))
        return r
    r = node(atom("is", t, k), TRUE, FALSE)
    for j in range(1, k):
        r = band(r, bnot(node(atom("is", t, j), TRUE, FALSE)))
    return r


NVARIANTS = {}


def field(v, i):
    return lift(("fld", i), lambda t: _field(t, i), v)


def _field(t, i):
    if t.op == "agg":
        f = t.args[2]
        return f[i] if i < len(f) else BOT
    if t.op == "rec":
        for j, x in t.args[1]:
            if j == i:
                return x
        return _field(t.args[0], i)
    if t.op == "idx" and False:
        pass
    return mk("field", t, i)


def vfield(v, variant, i):
    return lift(("vfld", variant, i), lambda t: _vfield(t, variant, i), v)


def _vfield(t, variant, i):
    if t.op == "agg":
        if t.args[1] != variant:
            return BOT
        f = t.args[2]
        return f[i] if i < len(f) else BOT
    if t.op == "unk":
        return unk("vfield", t, variant, i)
    if t.op == "rec":
        for j, x in t.args[1]:
            if j == (variant, i):
                return x
        return _vfield(t.args[0], variant, i)
    return mk("vfield", t, variant, i)


def set_field(v, i, x):
    return lift(("sfld", i), lambda t, y: _set_field(t, i, y) if False else t, v, UNIT) \
        if False else _set_field_dd(v, i, x)


def _set_field_dd(v, i, x):
    if isinstance(v, N):
        c = node(v.atom, TRUE, FALSE)
        return ite(c, _set_field_dd(v.hi, i, cof(x, v.atom, True)),
                   _set_field_dd(v.lo, i, cof(x, v.atom, False)))
    if v is BOT:
        return BOT
    if v.op == "agg":
        f = list(v.args[2])
        k = i[1] if isinstance(i, tuple) else i
        if k >= len(f):
            return unk("set_field", v, x)
        f[k] = x
        return agg(v.args[0], v.args[1], f)
    base, m = (v.args[0], dict(v.args[1])) if v.op == "rec" else (v, {})
    orig = _vfield(base, *i) if isinstance(i, tuple) else _field(base, i)
    if x is orig:
        m.pop(i, None)
    else:
        m[i] = x
    if not m:
        return base
    return mk("rec", base, tuple(sorted(m.items(), key=lambda z: str(z[0]))))


def cof(v, a, val):
    if isinstance(v, N) and v.atom is a:
        return v.hi if val else v.lo
    if isinstance(v, N) and v.atom.id < a.id:
        return assign(v, a, val)
    return v


# ---------------------------------------------------------------- numbers
def num(c):
    c = Fraction(c)
    return mk("num", (((), c),)) if c else ZERO


ZERO = mk("num", ())
ONE = num(1)


def poly(t):
    if t.op == "num":
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def frompoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("num", tuple(sorted(p.items(), key=lambda x: _mkey(x[0]))))


def const(t):
    """Fraction value of a constant number, else None."""
    if isinstance(t, T) and t.op == "num":
        if not t.args[0]:
            return Fraction(0)
        if len(t.args[0]) == 1 and t.args[0][0][0] == ():
            return t.args[0][0][1]
    return None


BADNUM = ("fconst",)


def _add(a, b):
    if a.op in BADNUM or b.op in BADNUM:
        return mk("fadd", a, b)
    p = poly(a)
    for m, c in poly(b).items():
        p[m] = p.get(m, 0) + c
    return frompoly(p)


def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    d = {a: e for a, e in d.items() if e}
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def _mul(a, b):
    if a.op in BADNUM or b.op in BADNUM:
        return mk("fmul", a, b)
    r = {}
    extra = []
    for m1, c1 in poly(a).items():
        for m2, c2 in poly(b).items():
            m = _mulmono(m1, m2)
            ex = None
            for x, e in m:
                if (x.op == "sqrt" and abs(e) >= 2) or (x.op == "inv" and e < 0) \
                        or (x.op == "exp2" and e != 1 and isinstance(e, int) and False):
                    ex = (x, e)
                    break
            if ex is None:
                r[m] = r.get(m, 0) + c1 * c2
            else:
                x, e = ex
                rest = frompoly({tuple(z for z in m if z[0] is not x): c1 * c2})
                if x.op == "inv":
                    t = _mul(rest, _pow(x.args[0], -e))
                else:
                    q, s = divmod(e, 2)
                    t = _mul(rest, _pow(x.args[0], q))
                    if s:
                        t = _mul(t, x)
                extra.append(t)
    t = frompoly(r)
    for x in extra:
        t = _add(t, x)
    return t


def _pow(t, n):
    n = int(n)
    if n < 0:
        return _inv(_pow(t, -n))
    r = ONE
    for _ in range(n):
        r = _mul(r, t)
    return r


def _neg(a):
    return _mul(num(-1), a)


def _inv(a):
    if a.op in BADNUM:
        return mk("finv", a)
    p = poly(a)
    if not p:
        return mk("finv", ZERO)
    if len(p) == 1:
        (m, c), = p.items()
        return frompoly({tuple((x, -e) for x, e in m): 1 / c})
    lead = a.args[0][0][1]
    q = _mul(num(1 / lead), a)
    return _mul(num(1 / lead), mk("inv", q))


def add(a, b):
    return lift("add", _add, a, b)


def sub(a, b):
    return lift("sub", lambda x, y: _add(x, _neg(y)), a, b)


def mul(a, b):
    return lift("mul", _mul, a, b)


def neg(a):
    return lift("neg", _neg, a)


def div(a, b):
    return lift("div", lambda x, y: _mul(x, _inv(y)), a, b)


def powi(a, b):
    def f(x, n):
        c = const(n)
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            return _pow(x, c)
        return mk("pow", x, n)
    return lift("powi", f, a, b)


def powf(a, b):
    def f(x, n):
        c = const(n)
        if c is not None:
            if c.denominator == 1 and abs(c) <= 12:
                return _pow(x, c)
            if c == Fraction(1, 2):
                return _sqrt(x)
        if const(x) == 2:
            return mk("exp2", n)
        return mk("pow", x, n)
    return lift("powf", f, a, b)


def _sqrt(x):
    c = const(x)
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d))
    return mk("sqrt", x)


def sqrt(a):
    return lift("sqrt", _sqrt, a)


def _abs(x):
    c = const(x)
    if c is not None:
        return num(abs(c))
    if nonneg(x):
        return x
    if x.op == "abs":
        return x
    p = x.args[0] if x.op == "num" else (((((x, 1),)), Fraction(1)),)
    lead = [c for m, c in p if m != ()][0]
    if lead < 0:
        x = _neg(x)
    # |c*m| = |c|*|m|
    if x.op == "num" and len(x.args[0]) == 1:
        m, c = x.args[0][0]
        if c != 1:
            return _mul(num(c), _abs(frompoly({m: Fraction(1)})))
    return mk("abs", x)


def fabs(a):
    return lift("abs", _abs, a)


def fun(name, *args):
    """Uninterpreted numeric function, lifted."""
    return lift(("fun", name), lambda *x: _fun(name, *x), *args)


def _fun(name, *x):
    if name == "cos" and x[0].op == "num" and x[0].args[0] and x[0].args[0][0][1] < 0:
        x = (_neg(x[0]),)
    if name == "sin" and x[0].op == "num" and x[0].args[0] and x[0].args[0][0][1] < 0:
        return _neg(mk("sin", _neg(x[0])))
    if name == "exp2":
        c = const(x[0])
        if c is not None and c.denominator == 1 and abs(c) < 64:
            return num(Fraction(2) ** int(c))
    if name in ("floor", "ceil", "trunc", "round") and isint(x[0]):
        return x[0]
    return mk(name, *x)


def isint(t):
    if isinstance(t, N):
        return all(isint(x) for x in leaves(t))
    if t in INTS or t in UINTS:
        return True
    if t.op == "num":
        for m, c in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in m:
                if e < 0 or not isint(a):
                    return False
        return True
    if t.op in ("len", "k", "first", "idiv", "irem", "bits"):
        return True
    if t.op == "draw":
        return t.args[3] in ("u", "i")
    if t.op == "bv":
        return t.args[1] == "k"
    if t.op in ("sum", "prod"):
        return isint(t.args[2])
    if t.op == "bot":
        return True
    if t.op == "dd":
        return isint(t.args[0])
    return False


def nonneg(t):
    if isinstance(t, N):
        return all(nonneg(x) for x in leaves(t))
    if t in UINTS:
        return True
    if t.op in ("len", "k", "first", "abs", "sqrt", "irem"):
        return True
    if t.op == "draw":
        return t.args[3] == "u"
    if t.op == "bv":
        return t.args[1] == "k"
    if t.op == "num":
        for m, c in t.args[0]:
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not nonneg(a):
                    return False
        return True
    if t.op in ("sum", "prod"):
        return nonneg(t.args[2])
    if t.op == "idiv":
        return nonneg(t.args[0]) and nonneg(t.args[1])
    if t.op == "bot":
        return True
    if t.op == "dd":
        return nonneg(t.args[0])
    return False


def is_count(t):
    """sum over indices of terms that are 0 or 1"""
    return t.op == "sum" and all(const(x) in (0, 1) for x in leaves(t.args[2]) if x is not BOT)


def linsplit(p):
    """num term -> (term without constant, constant)"""
    d = poly(p)
    c = d.pop((), Fraction(0))
    return frompoly(d), c


def irange(t, depth=0):
    """(least, most) of an integer term as terms, or None"""
    if depth > 4 or isinstance(t, N):
        return None
    if t.op == "draw" and t.args[3] in ("u", "i"):
        u = t.args[0]
        if u.op != "udist":
            return None
        return u.args[2], (u.args[3] if u.args[0] else _add(u.args[3], num(-1)))
    if t.op == "fold":
        n, lv, body, init = t.args
        acc = mk("bv", lv, "a")
        r = None
        for x in leaves(body) + (leaves(init)):
            if x is acc:
                continue
            q = irange(x, depth + 1)
            if q is None or (r is not None and r != q) or x.h >= lv and any(
                    bvof(y, lv) for y in q):
                return None
            r = q
        return r
    if t.op == "idx":
        return erange(t.args[0], depth + 1)
    return None


def bvof(v, lv):
    """does v mention a variable bound at level lv"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, (Val, Atom)) and x not in seen:
            seen.add(x)
            if isinstance(x, N):
                st.extend((x.lo, x.hi, x.atom))
            elif isinstance(x, T) and x.op == "bv":
                if x.args[0] == lv:
                    return True
            else:
                st.extend(x.args)
    return False


def erange(s, depth=0):
    """range of the elements of an integer sequence"""
    if depth > 4 or isinstance(s, N):
        return None
    if s.op in ("sortby", "take", "perm"):
        return erange(s.args[0], depth + 1)
    if s.op == "flat":
        n, lv, body = s.args
        k = mk("bv", lv, "k")
        for x in leaves(body):
            if x is NIL:
                continue
            if x.op != "lit" or any(e is not k for e in x.args[0]):
                return None
        return (ZERO, _add(n, num(-1))) if isinstance(n, T) else None
    return None


def udist(incl, kd, lo, hi):
    """uniform distribution over lo..hi; integer ranges are kept half-open"""
    def f(x, y):
        if kd in ("u", "i"):
            return mk("udist", False, "u" if nonneg(x) else "i", x, _add(y, ONE) if incl else y)
        return mk("udist", incl, kd, x, y)
    return lift(("ud", incl, kd), f, lo, hi)


def _draw_range(p, ps):
    """p <= 0 decided by the ranges of the integers in p, if it is"""
    up, lo, some = p, p, False
    for m, c in ps:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("draw", "fold", "idx"):
            d = m[0][0]
            r = irange(d)
            if r is None:
                continue
            least, most = r
            cc = num(c)
            some = True
            up = _add(up, _mul(cc, _add(most if c > 0 else least, _neg(d))))
            lo = _add(lo, _mul(cc, _add(least if c > 0 else most, _neg(d))))
    if some:
        if up is not p and _le0(up) is TRUE:
            return TRUE
        if lo is not p and _le0(lo) is FALSE:
            return FALSE
    return None


def _le0(p):
    """integer p <= 0"""
    c = const(p)
    if c is not None:
        return bool_(c <= 0)
    if p.op == "idx" or p.op != "num":
        if nonneg(p):
            pass
    ps = p.args[0] if p.op == "num" else ((((p, 1),), Fraction(1)),)
    if p.op == "unk":
        return node(atom("b", unk("le0", p)), TRUE, FALSE)
    # sign facts
    cst = Fraction(0)
    allpos = allneg = True
    for m, c in ps:
        if m == ():
            cst = c
            continue
        nn = nonneg(frompoly({m: Fraction(1)}))
        if not (nn and c > 0):
            allpos = False
        if not (nn and c < 0):
            allneg = False
    if allpos and cst > 0:
        return FALSE
    if allneg and cst <= 0:
        return TRUE
    r = _draw_range(p, ps)
    if r is not None:
        return r
    lead = [c for m, c in ps if m != ()][0]
    # content: divide by gcd of the integer coefficients
    from math import gcd, floor, ceil
    cs = [c for m, c in ps if m != ()]
    if all(c.denominator == 1 for c in cs):
        g = 0
        for c in cs:
            g = gcd(g, int(abs(c)))
        if g > 1:
            d = {m: c / g for m, c in ps if m != ()}
            d[()] = Fraction(ceil(cst / g))
            return _le0(frompoly(d))
    if lead > 0:
        return node(atom("le0", p), TRUE, FALSE)
    q = _add(ONE, _neg(p))
    return bnot(node(atom("le0", q), TRUE, FALSE))


def le0(p):
    return lift("le0", _le0, p)


def is_nan(v):
    return lift("nan", _nan, v)


def _nan(t):
    if t.op == "fconst":
        return bool_(t.args[0] == "nan")
    if const(t) is not None or isint(t) or t in NOTNAN or t.op == "draw":
        return FALSE
    if t.op == "abs":
        return _nan(t.args[0])
    if t.op == "num" and len(t.args[0]) == 1 and len(t.args[0][0][0]) == 1 and t.args[0][0][0][0][1] == 1:
        return _nan(t.args[0][0][0][0][0])
    if t.op == "num" and t.args[0][0][1] < 0:
        t = _neg(t)
    return node(atom("nan", t), TRUE, FALSE)


def is_inf(v):
    """infinite (meaningful only when not NaN)"""
    return lift("inf", _inf, v)


def _inf(t):
    if t.op == "fconst":
        return bool_(t.args[0] != "nan")
    if const(t) is not None or isint(t) or t in NOTNAN or t.op == "draw":
        return FALSE
    if t.op == "abs":
        return _inf(t.args[0])
    if t.op == "num" and len(t.args[0]) == 1 and len(t.args[0][0][0]) == 1 and t.args[0][0][0][0][1] == 1:
        return _inf(t.args[0][0][0][0][0])
    if t.op == "num" and t.args[0][0][1] < 0:
        t = _neg(t)
    return band(bnot(_nan(t)), node(atom("inf", t), TRUE, FALSE))


def is_finite(v):
    return band(bnot(is_nan(v)), bnot(is_inf(v)))


INF = mk("fconst", "inf")
NINF = mk("fconst", "-inf")
NAN = mk("fconst", "nan")


def _ford(a, b):
    """(lt, eq) diagrams for floats a, b"""
    if a.op == "fconst" and b.op == "fconst":
        x, y = float(a.args[0]), float(b.args[0])
        return bool_(x < y), bool_(x == y)
    ok = band(bnot(_nan(a)), bnot(_nan(b)))
    if a is b:
        return FALSE, ok
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return bool_(ca < cb), bool_(ca == cb)
    # x < inf etc. against finite things
    for (x, y, sw) in ((a, b, False), (b, a, True)):
        if y.op == "fconst" and y.args[0] != "nan" and (const(x) is not None or x in NOTNAN or isint(x)):
            lt = (y.args[0] == "inf") != sw
            return bool_(lt), FALSE
    sw = a.id > b.id
    x, y = (b, a) if sw else (a, b)
    e = node(atom("feq", x, y), TRUE, FALSE)
    l = node(atom("flt", x, y), TRUE, FALSE)
    eq = band(ok, e)
    lt = band(ok, band(bnot(e), l))
    gt = band(ok, band(bnot(e), bnot(l)))
    return (gt if sw else lt), eq


def _int_pair(a, b):
    return isint(a) and isint(b)


def lt(a, b, kind=None):
    def f(x, y):
        if kind == "i" or (_int_pair(x, y)):
            return _le0(_add(_add(x, _neg(y)), ONE))
        return _ford(x, y)[0]
    return lift(("lt", kind), f, a, b)


def le(a, b, kind=None):
    def f(x, y):
        if kind == "i" or (_int_pair(x, y)):
            return _le0(_add(x, _neg(y)))
        l, e = _ford(x, y)
        return bor(l, e)
    return lift(("le", kind), f, a, b)


def eqn(a, b, kind=None):
    def f(x, y):
        if kind == "i" or (_int_pair(x, y)):
            d = _add(x, _neg(y))
            if const(d) is not None:
                return bool_(const(d) == 0)
            return band(_le0(d), _le0(_neg(d)))
        return _ford(x, y)[1]
    return lift(("eqn", kind), f, a, b)


def boolatom(t):
    return lift("boolatom", lambda x: x if x in (TRUE, FALSE) else node(atom("b", x), TRUE, FALSE), t)


def imin(a, b):
    return ite(le(a, b, "i"), a, b)


def imax(a, b):
    return ite(le(a, b, "i"), b, a)


def monus(a, b):
    """max(a-b, 0)"""
    d = sub(a, b)
    return nonneg_part(d)


def nonneg_part(d):
    return lift("nnp", lambda x: x if nonneg(x) else ite(_le0(x), ZERO, x), d)


# ---------------------------------------------------------------- binders
_fresh = itertools.count(1)


def fresh_k(name="k"):
    return mk("k", "%s%d" % (name, next(_fresh)))


def close(body, syms):
    """body with the symbols in syms (dict sym -> tag) replaced by bound variables of a new level"""
    lv = body.h + 1
    m = {s: mk("bv", lv, tag) for s, tag in syms.items()}
    return lv, subst(body, m)


def openb(lv, body, vals):
    """vals: dict tag -> Val"""
    return subst(body, {mk("bv", lv, tag): v for tag, v in vals.items()})


def _has(v, s):
    return s in v.free


def under_bound(body, k, n):
    """simplify conditions of body knowing 0 <= k < n"""
    if isinstance(n, N) or k not in body.free:
        return body
    return assume_int(body, [(sub(k, sub(n, ONE)))], k)


def assume_int(v, les, k=None):
    """simplify the conditions in v knowing p <= 0 for each p in les (all of them mention the symbol k, if given)"""
    facts = []
    for p in les:
        if isinstance(p, T):
            facts.append(linsplit(p))
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Val, Atom)):
            return x
        if isinstance(x, Val) and k is not None and k not in x.free:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, N):
            r = None
            if x.atom.kind == "le0":
                d = implied_le0(x.atom.args[0], facts)
                if d is not None:
                    r = go(x.hi if d else x.lo)
            if r is None:
                a, hi, lo = go(x.atom), go(x.hi), go(x.lo)
                r = ite(a, hi, lo)
        elif isinstance(x, Atom):
            r = rebuild_atom(x, go) if x.kind != "le0" else node(x, TRUE, FALSE)
        elif x.op in _LEAFOPS:
            r = x
        else:
            r = remark(x, rebuild(x, go))
        memo[x] = r
        return r
    return go(v)


_LEAFOPS = ("sym", "k", "phi", "bv", "true", "false", "bot", "fconst", "str", "infn", "fn", "cst", "num")


def implied_le0(p, facts):
    """is p<=0 decided by facts [(lin, c)] meaning lin + c <= 0 ?"""
    l, c = linsplit(p)
    for fl, fc in facts:
        if fl is l and c <= fc:
            return True
        # -l: lin' = -fl : -l... p>=1  <=>  -l - c + 1 <= 0
        if fl is _neg(l) and (1 - c) <= fc:
            return False
    return None


def lift_inv(k, body, f, n=None):
    """Split a diagram body on the atoms that do not depend on k, apply f to the rest."""
    if isinstance(body, N):
        for a in sorted(support(body), key=lambda x: x.id):
            if k not in a.free:
                c = node(a, TRUE, FALSE)
                return ite(c, lift_inv(k, assign(body, a, True), f),
                           lift_inv(k, assign(body, a, False), f))
    return f(body)


UNROLL = 8


def _small(n):
    c = const(n)
    if c is not None and c.denominator == 1 and 0 <= c <= UNROLL:
        return int(c)
    return None


def summ(n, k, body):
    if isinstance(n, N):
        return lift(("summ", k, body), lambda m: summ(m, k, body), n)
    if n is BOT or body is BOT:
        return BOT
    s = _small(n)
    if s is not None:
        r = ZERO
        for i in range(s):
            r = add(r, subst(body, {k: num(i)}))
        return r
    body = under_bound(body, k, n)
    return lift_inv(k, body, lambda b: _summ(n, k, b))


def _summ(n, k, body):
    if body.unk:
        lv, c = close(body, {k: "k"})
        return mk("sum", n, lv, c)
    monos = {}
    for t in leaves(body):
        if t is BOT:
            continue
        for m in poly(t):
            monos[m] = True
    r = ZERO
    for m in sorted(monos, key=_mkey):
        cd = lift(("coef", m), lambda t: num(poly(t).get(m, 0)), body)
        inv = tuple((a, e) for a, e in m if k not in a.free)
        dep = tuple((a, e) for a, e in m if k in a.free)
        iv = frompoly({inv: Fraction(1)})
        dv = frompoly({dep: Fraction(1)})
        if isinstance(cd, T):
            c = cd
            cd = ONE
        else:
            # pull a common constant factor out of the coefficient diagram
            cs = sorted(set(const(x) for x in leaves(cd) if x is not BOT and const(x)))
            c = ONE
            if len(cs) == 1 and cs[0] != 1:
                c = num(cs[0])
                cd = lift(("div", c), lambda x: _mul(x, _inv(c)) if x is not BOT else x, cd)
        b = mul(cd, dv)
        if b is ONE:
            s = n
        else:
            lv, cl = close(b, {k: "k"})
            s = mk("sum", n, lv, cl)
        r = add(r, mul(mul(c, iv), s))
    return r


def prod(n, k, body):
    if isinstance(n, N):
        return lift(("prod", k, body), lambda m: prod(m, k, body), n)
    if n is BOT or body is BOT:
        return BOT
    s = _small(n)
    if s is not None:
        r = ONE
        for i in range(s):
            r = mul(r, subst(body, {k: num(i)}))
        return r
    body = under_bound(body, k, n)
    if k not in body.free:
        return powf(body, n)
    lv, cl = close(body, {k: "k"})
    return mk("prod", n, lv, cl)


def anyq(n, k, body):
    """exists 0 <= k < n : body     (n may be INF_N for unbounded)"""
    if isinstance(n, N):
        return lift(("anyq", k, body), lambda m: anyq(m, k, body), n)
    if body is FALSE:
        return FALSE
    s = _small(n)
    if s is not None:
        r = FALSE
        for i in range(s):
            r = bor(r, subst(body, {k: num(i)}))
        return r
    if n.op != "infn":
        body = under_bound(body, k, n)
    return lift_inv(k, body, lambda b: _anyq(n, k, b))


def _anyq(n, k, b):
    if b is FALSE:
        return FALSE
    if b is TRUE:
        if n.op == "infn":
            return TRUE
        return bnot(le0(n))
    lv, cl = close(b, {k: "k"})
    return node(atom("any", n, lv, cl), TRUE, FALSE)


INFN = mk("infn")


def first(n, k, body):
    if isinstance(n, N):
        return lift(("first", k, body), lambda m: first(m, k, body), n)
    if n.op != "infn":
        body = under_bound(body, k, n)
    if body is TRUE:
        return ZERO
    if k not in body.free and isinstance(body, N):
        return ite(body, ZERO, unk("first", n, body))
    lv, cl = close(body, {k: "k"})
    return mk("first", n, lv, cl)


def fold(n, k, phi, init, body):
    """acc_0 = init, acc_{k+1} = body(k, acc_k), result acc_n"""
    if isinstance(n, N):
        return lift(("fold", k, phi, init, body), lambda m: fold(m, k, phi, init, body), n)
    s = _small(n)
    if s is not None and s <= 4:
        r = init
        for i in range(s):
            r = subst(body, {k: num(i), phi: r})
        return r
    if n.op != "infn":
        body = under_bound(body, k, n)
    lv, cl = close(body, {k: "k", phi: "a"})
    return mk("fold", n, lv, cl, init)


def foldb(n, k, phi, init, body):
    """as fold for a truth value (the accumulator occurs as a boolean)"""
    if isinstance(n, N):
        return lift(("foldb", k, phi, init, body), lambda m: foldb(m, k, phi, init, body), n)
    if n.op != "infn":
        body = under_bound(body, k, n)
    lv, cl = close(body, {k: "k", phi: "a"})
    return mk("foldb", n, lv, cl, init)


# ---------------------------------------------------------------- vectors
def lit(*e):
    return mk("lit", tuple(e))


NIL = lit()


def length(v):
    return lift("len", _len, v)


def _len(s):
    if s.op == "lit":
        return num(len(s.args[0]))
    if s.op == "comp":
        return s.args[0]
    if s.op == "cat":
        r = ZERO
        for x in s.args[0]:
            r = add(r, length(x))
        return r
    if s.op == "upd":
        return _len(s.args[0])
    if s.op == "flat":
        k = fresh_k()
        return summ(s.args[0], k, length(openb(s.args[1], s.args[2], {"k": k})))
    if s.op in ("take",):
        return imin(s.args[1], _len(s.args[0]))
    if s.op in ("sortby", "perm"):
        return length(s.args[0])
    if s.op == "fold":
        # element-wise replacement keeps the length
        acc = mk("bv", s.args[1], "a")
        ok = True
        for x in leaves(s.args[2]):
            while x.op == "upd" and isinstance(x.args[0], T):
                x = x.args[0]
            ok = ok and x is acc
        if ok:
            return length(s.args[3])
    if s.op == "str":
        return num(len(s.args[0]))
    return mk("len", s)


def idx(v, i):
    return lift("idx", _idx, v, i)


def _idx(s, i):
    c = const(i)
    if s.op == "lit":
        if c is not None:
            return s.args[0][int(c)] if 0 <= c < len(s.args[0]) else BOT
        r = BOT
        for j, e in enumerate(s.args[0]):
            r = ite(eqn(i, num(j), "i"), e, r)
        return r
    if s.op == "comp":
        return openb(s.args[1], s.args[2], {"k": i})
    if s.op == "upd":
        b, j, v = s.args
        e = eqn(i, j, "i")
        if e is TRUE:
            return v
        if e is FALSE:
            return _idx(b, i)
        return ite(e, v, _idx(b, i))
    if s.op == "cat":
        parts = s.args[0]
        l0 = length(parts[0])
        rest = cat(*parts[1:])
        return ite(lt(i, l0, "i"), idx(parts[0], i), idx(rest, sub(i, l0)))
    if s.op == "take":
        return _idx(s.args[0], i)
    if s.op == "unk":
        return unk("idx", s, i)
    return mk("idx", s, i)


def comp(n, k, body):
    if isinstance(n, N):
        return lift(("comp", k, body), lambda m: comp(m, k, body), n)
    if n is BOT:
        return BOT
    s = _small(n)
    if s is not None:
        return lit(*[subst(body, {k: num(i)}) for i in range(s)])
    body = under_bound(body, k, n)
    if isinstance(body, T) and body.op == "idx" and body.args[1] is k and k not in body.args[0].free:
        if length(body.args[0]) is n:
            return body.args[0]
    lv, cl = close(body, {k: "k"})
    return mk("comp", n, lv, cl)


def flat(n, k, body):
    """concatenation of body(0), body(1), ..., body(n-1)"""
    if isinstance(n, N):
        return lift(("flat", k, body), lambda m: flat(m, k, body), n)
    s = _small(n)
    if s is not None:
        return cat(*[subst(body, {k: num(i)}) for i in range(s)])
    body = under_bound(body, k, n)
    if isinstance(body, N) and all(x.op == "lit" and len(x.args[0]) == 1 for x in leaves(body)):
        return comp(n, k, lift("only", lambda x: x.args[0][0], body))

    def f(b):
        if b is NIL:
            return NIL
        if isinstance(b, T) and b.op == "lit" and len(b.args[0]) == 1:
            return comp(n, k, b.args[0][0])
        lv, cl = close(b, {k: "k"})
        return mk("flat", n, lv, cl)
    return lift_inv(k, body, f)


def cat(*parts):
    return lift("cat", _cat, *parts) if parts else NIL


def _cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.args[0]
        else:
            ps = (p,)
        for x in ps:
            if x is NIL:
                continue
            if out and isinstance(x, T) and x.op == "lit" and out[-1].op == "lit":
                out[-1] = lit(*(out[-1].args[0] + x.args[0]))
            else:
                out.append(x)
    if not out:
        return NIL
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def upd(s, i, v):
    """sequence s with element i replaced"""
    if isinstance(s, N):
        c = node(s.atom, TRUE, FALSE)
        return ite(c, upd(s.hi, i, v), upd(s.lo, i, v))
    if isinstance(i, N):
        c = node(i.atom, TRUE, FALSE)
        return ite(c, upd(s, i.hi, v), upd(s, i.lo, v))
    if s is BOT:
        return BOT
    if s.op == "lit" and const(i) is not None and 0 <= const(i) < len(s.args[0]):
        e = list(s.args[0])
        e[int(const(i))] = v
        return lit(*e)
    if s.op == "upd" and s.args[1] is i:
        return upd(s.args[0], i, v)
    if s.op == "cat" and isinstance(i, T):
        parts = s.args[0]
        at = ZERO
        for j, q in enumerate(parts):
            d = sub(i, at)
            if q.op == "lit" and const(d) is not None and 0 <= const(d) < len(q.args[0]):
                return cat(*(parts[:j] + (upd(q, d, v),) + parts[j + 1:]))
            at = add(at, length(q))
    if _idx(s, i) is v:
        return s
    return mk("upd", s, i, v)


def take(s, n):
    def f(x, m):
        if x.op == "lit" and const(m) is not None:
            return lit(*x.args[0][:int(const(m))])
        if m is _len(x):
            return x
        if x.op == "cat":
            parts = x.args[0]
            at = ZERO
            for j, q in enumerate(parts):
                d = sub(m, at)
                c = const(d)
                if c == 0:
                    return cat(*parts[:j])
                if c is not None and q.op == "lit" and 0 < c <= len(q.args[0]):
                    return cat(*(parts[:j] + (lit(*q.args[0][:int(c)]),)))
                if c is not None and c < 0:
                    break
                at = add(at, length(q))
        return mk("take", x, m)
    return lift("take", f, s, n)


# ---------------------------------------------------------------- substitution
def subst(v, m, memo=None):
    if not m:
        return v
    keys = frozenset(m)
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, (Val, Atom)):
            if not (x.free & keys):
                return x
            r = memo.get(x)
            if r is None:
                r = step(x)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    def step(x):
        if isinstance(x, N):
            c = atom_val(x.atom)
            return ite(c, go(x.hi), go(x.lo))
        if isinstance(x, Atom):
            return atom_val(x)
        if x in m:
            return m[x]
        return remark(x, rebuild(x, go))

    def atom_val(a):
        if not (a.free & keys):
            return node(a, TRUE, FALSE)
        return rebuild_atom(a, go)
    return go(v)


def remark(x, r):
    """carry the numeric type facts of term x over to its rebuilt form r"""
    for s in (UINTS, INTS, NOTNAN):
        if x in s:
            for t in leaves(r):
                if t.op != "num" and t is not BOT:
                    s.add(t)
    return r


def replace(v, m, sym=None):
    """v with every occurrence of the terms in m (dict) replaced; sym: a symbol all keys contain"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Val, Atom)):
            return x
        if sym is not None and sym not in x.free:
            return x
        r = memo.get(x)
        if r is None:
            if isinstance(x, N):
                r = ite(rebuild_atom(x.atom, go), go(x.hi), go(x.lo))
            elif x in m:
                r = m[x]
            elif x.op in ("sym", "k", "phi", "bv", "true", "false", "bot", "fconst", "str", "infn", "fn"):
                r = x
            else:
                r = remark(x, rebuild(x, go))
            memo[x] = r
        return r
    return go(v)


def rebuild_atom(a, go):
    k = a.kind
    if k == "le0":
        return le0(go(a.args[0]))
    if k == "nan":
        return is_nan(go(a.args[0]))
    if k == "inf":
        v = go(a.args[0])
        return lift("inf1", _inf1, v)
    if k in ("feq", "flt"):
        x, y = go(a.args[0]), go(a.args[1])
        return lift((k, "rb"), lambda p, q: _rb_ford(k, p, q), x, y)
    if k == "b":
        return boolatom(go(a.args[0]))
    if k == "is":
        return lift(("is1", a.args[1]), lambda t: _is1(t, a.args[1]), go(a.args[0]))
    if k == "any":
        s = fresh_k()
        body = subst(a.args[2], {mk("bv", a.args[1], "k"): s})
        return anyq(go(a.args[0]), s, go(body))
    raise KeyError(k)


def _inf1(t):
    # raw 'inf' atom: only consulted when not NaN
    r = _inf(t)
    return r


def _rb_ford(k, p, q):
    # raw order atoms are only consulted when both are numbers
    l, e = _ford(p, q)
    return l if k == "flt" else e


def _is1(t, k):
    if t.op == "agg":
        return bool_(t.args[1] == k)
    return _is_variant(t, k) if t.op in ("rec", "unk") else node(atom("is", t, k), TRUE, FALSE)


def rebuild(x, go):
    op, a = x.op, x.args
    if op == "num":
        r = ZERO
        for m, c in a[0]:
            t = num(c)
            for y, e in m:
                z = go(y)
                if e == int(e):
                    t = mul(t, powi(z, num(e)))
                else:
                    t = mul(t, mk("pow", z, num(e)))
            r = add(r, t)
        return r
    if op == "agg":
        return agg(a[0], a[1], [go(y) for y in a[2]])
    if op == "rec":
        r = go(a[0])
        for i, y in a[1]:
            r = set_field(r, i, go(y))
        return r
    if op == "field":
        return field(go(a[0]), a[1])
    if op == "vfield":
        return vfield(go(a[0]), a[1], a[2])
    if op == "len":
        return length(go(a[0]))
    if op == "idx":
        return idx(go(a[0]), go(a[1]))
    if op == "lit":
        return lit(*[go(y) for y in a[0]])
    if op == "cat":
        return cat(*[go(y) for y in a[0]])
    if op == "upd":
        return upd(go(a[0]), go(a[1]), go(a[2]))
    if op == "take":
        return take(go(a[0]), go(a[1]))
    if op in ("comp", "flat", "sum", "prod", "first"):
        k = fresh_k()
        body = go(openb(a[1], a[2], {"k": k}))
        n = go(a[0])
        return {"comp": comp, "flat": flat, "sum": summ, "prod": prod, "first": first}[op](n, k, body)
    if op == "last":
        k = fresh_k()
        return last(go(a[0]), k, go(openb(a[1], a[2], {"k": k})), go(a[3]))
    if op in ("fold", "foldb"):
        k, p = fresh_k(), fresh_phi()
        body = go(openb(a[1], a[2], {"k": k, "a": p}))
        return (fold if op == "fold" else foldb)(go(a[0]), k, p, go(a[3]), body)
    if op in ("sortby", "minby", "maxby"):
        p, q = fresh_phi(), fresh_phi()
        body = go(openb(a[1], a[2], {"x": p, "y": q}))
        return {"sortby": sortby, "minby": minby, "maxby": maxby}[op](go(a[0]), p, q, body)
    if op == "reduce":
        k, p = fresh_k(), fresh_phi()
        f0 = go(openb(a[1], a[2], {"k": k}))
        st = go(openb(a[1], a[3], {"k": k, "a": p}))
        g = go(openb(a[1], a[4], {"k": k}))
        return reduce_(go(a[0]), k, p, f0, st, g)
    if op == "sqrt":
        return sqrt(go(a[0]))
    if op == "abs":
        return fabs(go(a[0]))
    if op == "inv":
        return div(ONE, go(a[0]))
    if op == "pow":
        return powf(go(a[0]), go(a[1]))
    if op == "dd":
        return go(a[0])
    if op == "unk":
        return unk(a[0], *go(a[1]))
    if op == "fun1":
        return x
    # generic lifted operator: arguments are values or plain data
    return generic(op, go(a))


LIFTED = {"res", "draw", "call", "udist", "sin", "cos", "exp2", "bit", "idiv", "irem", "mref",
          "evout", "fadd", "fmul", "finv", "signum", "eq"}


def generic(op, args):
    """Rebuild a term whose Val arguments may have become diagrams."""
    for j, y in enumerate(args):
        if isinstance(y, N):
            c = node(y.atom, TRUE, FALSE)
            f = lambda val: tuple(cof(z, y.atom, val) if isinstance(z, Val) else _cof_tuple(z, y.atom, val)
                                  for z in args)
            return ite(c, generic(op, f(True)), generic(op, f(False)))
    if op in ("sin", "cos", "exp2", "floor", "ceil", "trunc", "round", "signum", "ln", "exp", "tan"):
        return _fun(op, *args)
    if op == "bit":
        return bitop(*args)
    if op in ("idiv", "irem"):
        return intdiv(op, *args)
    r = mk(op, *args)
    return r


def _cof_tuple(z, a, val):
    if isinstance(z, tuple):
        return tuple(cof(y, a, val) if isinstance(y, Val) else _cof_tuple(y, a, val) for y in z)
    return z


def fresh_phi(name="a"):
    return mk("phi", "%s%d" % (name, next(_fresh)))


def sortby(s, p, q, body):
    """stable sort of s by comparator value body(p, q) (an Ordering)"""
    def f(x):
        lv, cl = close(body, {p: "x", q: "y"})
        return mk("sortby", x, lv, cl)
    return lift(("sortby", p, q, body), f, s)


def minby(s, p, q, body):
    """first least element of a non-empty sequence by comparator value body(p, q)"""
    def f(x):
        lv, cl = close(body, {p: "x", q: "y"})
        return mk("minby", x, lv, cl)
    return lift(("minby", p, q, body), f, s)


def maxby(s, p, q, body):
    """last greatest element of a non-empty sequence by comparator value body(p, q)"""
    def f(x):
        lv, cl = close(body, {p: "x", q: "y"})
        return mk("maxby", x, lv, cl)
    return lift(("maxby", p, q, body), f, s)


def reduce_(n, k, p, f0, st, g):
    """left reduction of f0(k) over the k < n with g(k); acc' = st(k, acc); undefined if none"""
    if isinstance(n, N):
        return lift(("reduce", k, p, f0, st, g), lambda m: reduce_(m, k, p, f0, st, g), n)
    f0, st, g = under_bound(f0, k, n), under_bound(st, k, n), under_bound(g, k, n)
    lv = max(f0.h, st.h, g.h) + 1
    m = {k: mk("bv", lv, "k"), p: mk("bv", lv, "a")}
    return mk("reduce", n, lv, subst(f0, m), subst(st, m), subst(g, m))


def last(n, k, body, dflt):
    """value of the last k < n with body(k) not BOT ... used for conditionally overwritten variables"""
    if isinstance(n, N):
        return lift(("last", k, body, dflt), lambda m: last(m, k, body, dflt), n)
    lv, cl = close(body, {k: "k"})
    return mk("last", n, lv, cl, dflt)


# ---------------------------------------------------------------- machine integers
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
         "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def bitop(op, ty, *args):
    return lift(("bit", op, ty), lambda *x: _bitop(op, ty, *x), *args)


def _wrap(c, ty):
    w = WIDTH[ty]
    c = int(c) & ((1 << w) - 1)
    if ty[0] == "i" and c >> (w - 1):
        c -= 1 << w
    return num(c)


def _bitop(op, ty, *x):
    cs = [const(y) for y in x]
    if all(c is not None for c in cs) and ty in WIDTH:
        w = WIDTH[ty]
        c = [int(y) for y in cs]
        if op == "not":
            return _wrap(~c[0], ty)
        if op == "and":
            return _wrap(c[0] & c[1], ty)
        if op == "or":
            return _wrap(c[0] | c[1], ty)
        if op == "xor":
            return _wrap(c[0] ^ c[1], ty)
        if op == "shl" and 0 <= c[1] < w:
            return _wrap(c[0] << c[1], ty)
        if op == "shr" and 0 <= c[1] < w:
            return _wrap(c[0] >> c[1], ty)
        if op == "cast":
            return _wrap(c[0], ty)
    r = mk("bit", op, ty, *x)
    (UINTS if ty[0] == "u" else INTS).add(r)
    return r


def intdiv(op, a, b):
    def f(x, y):
        cx, cy = const(x), const(y)
        if cy is not None and cy != 0:
            if cx is not None:
                q = abs(cx) // abs(cy) * (1 if (cx < 0) == (cy < 0) else -1)
                return num(q) if op == "idiv" else num(cx - q * cy)
            if cy == 1:
                return x if op == "idiv" else ZERO
        r = mk(op, x, y)
        if nonneg(x) and nonneg(y):
            UINTS.add(r)
        else:
            INTS.add(r)
        return r
    return lift(op, f, a, b)


# ---------------------------------------------------------------- printing
def show_atom(a, d=0):
    k = a.kind
    if k == "le0":
        return "%s<=0" % show(a.args[0], d)
    if k == "nan":
        return "nan(%s)" % show(a.args[0], d)
    if k == "inf":
        return "inf(%s)" % show(a.args[0], d)
    if k == "feq":
        return "%s==%s" % (show(a.args[0], d), show(a.args[1], d))
    if k == "flt":
        return "%s<%s" % (show(a.args[0], d), show(a.args[1], d))
    if k == "b":
        return show(a.args[0], d)
    if k == "is":
        return "is%d(%s)" % (a.args[1], show(a.args[0], d))
    if k == "any":
        return "any(k%d<%s: %s)" % (a.args[1], show(a.args[0], d), show(a.args[2], d + 1))
    return k


NAMES = {}


def show(v, d=0):
    if d > 14:
        return "..."
    if isinstance(v, N):
        if v.hi is TRUE and v.lo is FALSE:
            return show_atom(v.atom, d)
        if v.hi is FALSE and v.lo is TRUE:
            return "!(%s)" % show_atom(v.atom, d)
        return "(%s ? %s : %s)" % (show_atom(v.atom, d + 1), show(v.hi, d + 1), show(v.lo, d + 1))
    if not isinstance(v, T):
        return str(v)
    op, a = v.op, v.args
    if op == "num":
        if not a[0]:
            return "0"
        out = []
        for m, c in a[0]:
            f = "*".join(show(x, d + 1) + ("" if e == 1 else "^%s" % e) for x, e in m)
            out.append(str(c) if not f else f if c == 1 else "%s*%s" % (c, f))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if op in ("sym", "k", "phi"):
        return str(a[0])
    if op == "bv":
        return "%s%d" % (a[1], a[0])
    if op == "agg":
        n = a[0].split("::")[-1]
        if a[0] == OPT:
            return "None" if a[1] == 0 else "Some(%s)" % show(a[2][0], d + 1)
        return "%s%s(%s)" % ("" if n == "tuple" else n, "" if a[1] == 0 else "#%d" % a[1],
                             ", ".join(show(x, d + 1) for x in a[2]))
    if op == "rec":
        return "%s{%s}" % (show(a[0], d + 1), ", ".join("%s=%s" % (i, show(x, d + 1)) for i, x in a[1]))
    if op == "field":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if op == "vfield":
        return "%s.v%d.%d" % (show(a[0], d + 1), a[1], a[2])
    if op == "idx":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if op == "lit":
        return "[%s]" % ", ".join(show(x, d + 1) for x in a[0])
    if op in ("comp", "flat", "sum", "prod", "first", "fold"):
        ex = ", init=%s" % show(a[3], d + 1) if op == "fold" else ""
        return "%s(k%d<%s: %s%s)" % (op, a[1], show(a[0], d + 1), show(a[2], d + 1), ex)
    if op == "unk":
        return "UNKNOWN<%s>" % a[0]
    if op in ("true", "false", "bot"):
        return op

    def sh(x):
        if isinstance(x, tuple):
            return "(" + ",".join(sh(y) for y in x) + ")"
        return show(x, d + 1) if isinstance(x, (Val,)) else str(x)
    return "%s(%s)" % (op, ", ".join(sh(x) for x in a))
