"""Access to the analysed program for the property modules."""
import contextlib
from fractions import Fraction

from terms import *
import terms as tm
import interp
from interp import Engine, TRACE, State, mref
from decide import Ob, decide, strip, same, scan

INT = ("usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64")

# field names of the library's own types at the time the properties were written; a private field that was
# renamed is found by its position
LAYOUT = {
    "genetic::Individual": ["chromosomes", "fitness", "alive"],
    "genetic::Population": ["goal", "individuals", "best_individual", "worst_individual", "iteration"],
    "genetic::GeneticOptimizer": ["stop_checker", "creator", "pairing", "cross", "mutation", "selections",
                                  "pre_births", "loggers", "population"],
    "particleswarm::Particle": ["coordinates", "velocity", "value", "best_personal_coordinates",
                                "best_personal_value", "worst_personal_coordinates", "worst_personal_value"],
    "particleswarm::Swarm": ["particles", "best_particle", "worst_particle", "iteration"],
    "particleswarm::ParticleSwarmOptimizer": ["goal", "stop_checker", "coordinates_initializer", "velocity_initializer",
                                              "velocity_calculator", "post_velocity_calc", "post_move", "loggers",
                                              "swarm"],
    "genetic::pairing::Tournament": ["families_count", "partners_count", "rounds_count", "random"],
    "tools::statistics::Statistics": ["results", "convergence"],
    "tools::statistics::CallCountData": ["0"],
}


class Missing(Exception):
    """a public part of the library the property speaks about is not there"""


class Unclear(Exception):
    """a private part cannot be found: nothing can be said"""


class Ctx(object):
    def __init__(self, prog):
        self.prog = prog
        self.eng = None
        self.obs = []
        self.structural = []     # (obligation, where, message or None)
        self.functions = set()
        self.loops = 0
        self.ncalls = 0
        self.notes = {}
        self.missing = []        # public anchors that do not exist
        self.failures = []       # parts the analysis could not carry out

    # ------------------------------------------------------------ program
    def fn(self, adt, name, trait=None, targs=None):
        """function: method of a type (optionally of a trait impl), or a free function by path"""
        if adt is None:
            for f in self.prog.local_fns():
                if f.path == name:
                    return f
            raise Missing("function " + name)
        c = self.prog.find_method(adt, name, trait)
        if targs is not None:
            c = [f for f in c if targs(f.j.get("targs") or [])]
        if len(c) != 1:
            raise Missing("%s::%s%s (%d found)" % (adt, name, " of " + trait if trait else "", len(c)))
        return c[0]

    def impl(self, trait, name, pred):
        c = [f for f in self.prog.local_fns() if f.j.get("trait") == trait and f.name == name and pred(f.j["self"])]
        if len(c) != 1:
            raise Missing("implementation of %s::%s (%d found)" % (trait, name, len(c)))
        return c[0]

    def ix(self, adt, name):
        fs = self.prog.fields(adt)
        if not fs:
            raise Missing("type " + adt)
        if name in fs:
            return fs.index(name)
        base = LAYOUT.get(adt, [])
        if name in base:
            i = base.index(name)
            if i < len(fs) and fs[i] not in base and len(fs) == len(base):
                return i
            # unique unnamed rest
            rest = [f for f in fs if f not in base]
            gone = [b for b in base if b not in fs]
            if len(rest) == 1 and gone == [name]:
                return fs.index(rest[0])
        raise Unclear("field %s of %s" % (name, adt))

    def get(self, v, adt, name):
        return field(v, self.ix(adt, name))

    def whole(self, v, adt):
        """v with its fields spelled out"""
        return agg(adt, 0, tuple(field(v, i) for i in range(len(self.prog.fields(adt)))))

    def put(self, v, adt, name, x):
        return tm.set_field(v, self.ix(adt, name), x)

    # ------------------------------------------------------------ analysis
    @contextlib.contextmanager
    def part(self, name):
        """a part of a check: what fails in it does not keep the other parts from being decided"""
        try:
            yield self
        except Missing as e:
            self.missing.append(str(e))
        except Exception as e:
            import traceback
            self.failures.append((name, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])))

    def sym(self, name, ty="?"):
        s = mk("sym", name)
        if ty in INT:
            (tm.UINTS if ty[0] == "u" else tm.INTS).add(s)
        if ty == "bool":
            return boolatom(s)
        return s

    def apply(self, f, *args, **kw):
        """value graph of applying a function value (a closure a library function returned)"""
        e = Engine(self.prog)
        r = e.analyse_value(f, args, kw.get("pre"))
        for i in e.analysed:
            self.functions.add(i)
        self.loops += len(r.loops)
        self.ncalls += e.calls
        for k, v in r.unknowns.items():
            self.notes[k] = self.notes.get(k, 0) + v
        r.name, r.span = kw.get("name", "returned closure"), ""
        return r

    def run(self, fn, *args, **kw):
        """value graph of fn on argument values; kw: pre, heap (objects referred to by mref(name))"""
        e = Engine(self.prog)
        a = {}
        st = None
        if kw.get("heap"):
            st = State({TRACE: NIL})
            st.mem.update(kw["heap"])
        for i, x in enumerate(args):
            if x is not None:
                a[i + 1] = x
        # types: every type parameter of the function stands for this primitive type
        ts = {g: {"k": "prim", "n": kw["types"]} for g in fn.gen} if kw.get("types") else None
        r = e.analyse(fn, args=a, pre=kw.get("pre"), st=st, tsub=ts)
        for i in e.analysed:
            self.functions.add(i)
        self.loops += len(r.loops)
        self.ncalls += e.calls
        for k, v in r.unknowns.items():
            self.notes[k] = self.notes.get(k, 0) + v
        r.name = fn.path
        r.span = fn.j.get("span", "")
        return r

    def items(self, r, it):
        """sequence of the items an iterator value yields after r"""
        import models
        e = Engine(self.prog)
        e.sinks, e.ks, e.loops, e.unknowns = [[]], [], [], {}
        st = State(dict(r.mem))
        x = models.materialise(e, st, it, "items")
        return x[1] if x else mk("never")

    def new(self, adt, *args, **kw):
        """value of a constructor, assuming it accepts its arguments"""
        f = self.fn(adt, kw.get("name", "new"), None)
        r = self.run(f, *args)
        return r

    # ------------------------------------------------------------ obligations
    def where(self, r):
        return "%s (%s)" % (r.name, r.span)

    def ob(self, name, r, code, spec=None, **kw):
        w = r if isinstance(r, str) else self.where(r)
        if code is None:
            code = mk("never")
        self.obs.append(Ob(name, w, code, spec, **kw))

    def returns(self, name, r, code, spec, pre=TRUE, **kw):
        """under pre the function does not panic and delivers spec"""
        self.nopanic(name, r, pre, over=kw.get("over"), modes=kw.get("modes"))
        self.ob(name, r, code, spec, pre=pre, **kw)

    def calls(self, name, fn, self0, mkargs, body, dom=TRUE, pre=TRUE, n=2, types=None):
        """Every call in a history: body(result, arguments, label) states what one call must do; either the object
        is unchanged by a call (then one call stands for every history), or the next call is examined on the state
        the first left behind."""
        s, hist = self0, pre
        for i in range(n):
            args = mkargs("" if i == 0 else "_%d" % (i + 1))
            r = self.run(fn, s, *args, pre=hist, types=types)
            body(r, args, name if i == 0 else name + " (later call)", hist)
            d = dom(*args) if callable(dom) else dom
            hist = conj(hist, d, r.facts)
            after = r.arg(1)
            if after is None or same(strip(hist), strip(after), strip(s)):
                self.fact(name + ": a call leaves no trace in the object", self.where(r), True, "")
                return
            s = after

    def nopanic(self, name, r, pre=TRUE, **kw):
        self.ob(name + ": no panic", r, r.may_panic(), FALSE, pre=pre, **kw)

    def refuses(self, name, r, cond, pre=TRUE, **kw):
        """panics exactly when cond holds"""
        self.ob(name + ": refused exactly when the argument is invalid", r, r.may_panic(), cond, pre=pre, **kw)

    def fact(self, name, where, ok, message):
        self.structural.append((name, where, None if ok else message))


# ---------------------------------------------------------------- term building
def vec(n, f):
    k = fresh_k()
    return comp(n, k, f(k))


def forall(n, f):
    k = fresh_k()
    return bnot(anyq(n, k, bnot(f(k))))


def exists(n, f):
    k = fresh_k()
    return anyq(n, k, f(k))


def sigma(n, f):
    k = fresh_k()
    return summ(n, k, f(k))


def product(n, f):
    k = fresh_k()
    return prod(n, k, f(k))


def folded(n, init, f):
    k, p = fresh_k(), fresh_phi()
    return fold(n, k, p, init, f(k, p))


def flatten(n, f):
    k = fresh_k()
    return flat(n, k, f(k))


def filtered(n, keep, f):
    k = fresh_k()
    return flat(n, k, ite(keep(k), lit(f(k)), NIL))


def conj(*c):
    r = TRUE
    for x in c:
        r = band(r, x)
    return r


def disj(*c):
    r = FALSE
    for x in c:
        r = bor(r, x)
    return r


def ieq(a, b):
    return eqn(a, b, "i")


def flt(a, b):
    return lt(a, b, "f")


def fle(a, b):
    return le(a, b, "f")


def ilt(a, b):
    return lt(a, b, "i")


def ile(a, b):
    return le(a, b, "i")


_n = [0]


def rdraw(incl, kd, lo, hi, tag, *ks):
    """a fresh uniform random number"""
    return lift(("spd", tag, ks, incl, kd), lambda d: mk("draw", d, "spec:" + tag, tuple(ks), d.args[1]),
                tm.udist(incl, kd, lo, hi))


def ev(name, *vals):
    return tm.generic("ev", (name, tuple(vals), 0, (), ""))


def res(name, *vals):
    return tm.generic("res", (name, 0, (), tuple(vals)))


def evout(name, i, *vals):
    return tm.generic("evout", (name, i, 0, (), tuple(vals)))


def call(name, *vals):
    return lift(("pcall", name), lambda *x: mk("call", name, x), *vals)


def events(*e):
    return cat(*[lit(x) for x in e]) if e else NIL


def text(*parts):
    return cat(*[mk("str", p) if isinstance(p, str) else p for p in parts]) if parts else NIL


def disp(v, prec=None, width=None, kind="$disp", flags=0):
    if flags == 0 and width is None and prec is not None:
        pass
    return lift(("disp", kind, flags), lambda x, w, p: mk("disp", kind, x, w, p, flags), v,
                UNIT if width is None else width, UNIT if prec is None else prec)
