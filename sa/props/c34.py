"""An effect rule: what the library touches besides its arguments, the random generator and the given writers."""
from props.lib import *

CRATES = ("optlib", "optlib_testfunc")
LOGGER = "tools::logging::Logger"
CLOCK = ("std::time::Instant::now", "std::time::SystemTime::now", "std::time::Instant::elapsed",
         "std::time::SystemTime::elapsed")
AMBIENT = {"std::io::stdio::": "uses the standard streams", "std::env::": "reads the environment",
           "std::fs::": "uses the file system", "std::process::": "controls processes",
           "std::net::": "uses the network", "std::os::": "uses the operating system",
           "std::sys::": "uses the operating system", "std::panic::set_hook": "changes how panics are reported",
           "std::panic::take_hook": "changes how panics are reported", "std::thread::current::": "asks for its thread",
           "std::thread::functions::current": "asks for its thread", "std::thread::current": "asks for its thread",
           "std::thread::thread::Thread::id": "asks for its thread", "std::thread::sleep": "sleeps",
           "std::thread::functions::sleep": "sleeps", "alloc::boxed::Box::<T>::leak": "leaks memory others can find"}
# shared by all copies of the handle
HANDLES = ("alloc::rc::Rc", "alloc::rc::Weak", "alloc::sync::Arc", "alloc::sync::Weak")
CELLS = ("core::cell::Cell", "core::cell::RefCell", "core::cell::UnsafeCell", "core::cell::once::OnceCell",
         "std::sync::poison::mutex::Mutex", "std::sync::poison::rwlock::RwLock", "std::sync::once_lock::OnceLock",
         "core::sync::atomic::Atomic")
RANDOM = ("rand::rngs::",)


def check(c):
    fns = [f for k in CRATES for f in c.prog.local_fns(k)]
    c.functions |= {f.path for f in fns}
    state = {}
    for k in CRATES:
        for s in c.prog.raw[k]["statics"]:
            if not (s["static"] or s["ty"].get("p") == "std::thread::local::LocalKey"):
                continue
            if s["local"] or s["mut"] or not s["freeze"] or not s["static"]:
                state[s["p"]] = s
    used = {}
    for f in fns:
        for p in statics(f.j["blocks"]):
            if p in state:
                used.setdefault(p, []).append(f)
    for p, s in sorted(state.items()):
        fs = [f for f in used.get(p, []) if not inner(f, state)]
        if fs and not fixed(c, p, s, fs):
            c.fact("nothing outlives or is shared by objects", "%s (%s)" % (fs[0].path, fs[0].span), False,
                   "reads or changes %s (%s), which all objects share" % (p, s["at"]))
    bad = False
    for f in fns:
        for path, at in called(f):
            for pre, what in AMBIENT.items():
                if path.startswith(pre) and not inner(f, state):
                    bad = True
                    c.fact("nothing besides arguments, random numbers and writers", "%s (%s)" % (f.path, f.span),
                           False, "%s: calls %s" % (what, path))
    if not bad:
        c.fact("nothing besides arguments, random numbers and writers", "%d functions" % len(fns), True, "")
    late = clockwork(c, fns)
    for f, path in late:
        c.fact("only loggers read the clock", "%s (%s)" % (f.path, f.span), False, "calls " + path)
    if not late:
        c.fact("only loggers read the clock", "%d functions" % len(fns), True, "")
    n = 0
    for f in fns:
        if f.j.get("trait") != "core::clone::Clone" or f.name != "clone":
            continue
        t = f.j["self"]
        n += 1
        p = shared(c, t, set())
        c.fact("copies share nothing that can change", "%s (%s)" % (f.path, f.span), p is None,
               "a copy keeps %s in common with its original" % p)


def statics(o):
    if isinstance(o, dict):
        c = o.get("c")
        if isinstance(c, dict):
            if "static" in c:
                yield c["static"]
            elif "def" in c:
                yield c["def"]
        if o.get("k") == "tlref":
            yield o["static"]
        for v in o.values():
            yield from statics(v)
    elif isinstance(o, list):
        for v in o:
            yield from statics(v)


def inner(f, state):
    """the code behind a thread local or lazy static, made by its declaration"""
    i = f.id.split("::", 1)[1]
    return any(i.startswith(p + "::") for p in state)


def fixed(c, p, s, fs):
    """whatever order objects use it in, they find the same value in it"""
    h = s["ty"].get("p")
    if h == "std::sync::lazy_lock::LazyLock":
        return not any(x in str(s["ty"]["a"]) for x in CELLS)
    if h == "std::thread::local::LocalKey":
        return generator(s["ty"]["a"][0])
    if h != "std::sync::once_lock::OnceLock" or any(x in str(s["ty"]["a"]) for x in CELLS):
        return generator(s["ty"])
    sites = [(f, b["t"]) for f in fs for b in f.blocks if b["t"]["k"] == "call" and called_path(b["t"]).startswith(
        "std::sync::once_lock::OnceLock::<T>::")]
    if len(sites) != 1 or len(fs) != 1 or not called_path(sites[0][1]).endswith("::get_or_init"):
        return False
    f, t = sites[0]
    ids = [x["id"] for x in t["f"]["c"]["ty"]["fn"].get("targs", []) if x["k"] == "closure"]
    return len(ids) == 1 and not captures(f, ids[0])


def generator(t):
    """a random generator, possibly in a cell"""
    while t.get("p") in CELLS:
        t = t["a"][0]
    return t.get("p", "").startswith(RANDOM)


def captures(f, cid):
    for b in f.blocks:
        for s in b["s"]:
            r = s.get("r") or {}
            if r.get("k") == "agg" and r.get("ak") == "closure" and r.get("id") == cid:
                return bool(r.get("ops"))
    return False


def called_path(t):
    c = t["f"].get("c")
    return c["ty"]["fn"]["path"] if c and c["ty"]["k"] == "fndef" else ""


def called(f):
    for b in f.blocks:
        if not b["cleanup"] and b["t"]["k"] == "call":
            p = called_path(b["t"])
            if p:
                yield p, b["t"]


def clockwork(c, fns):
    """functions that read the clock and can be reached from something else than a logger"""
    by = {f.id: f for f in fns}
    calls = {}
    for f in fns:
        out = calls.setdefault(f.id, set())
        for i in ids(f.j["blocks"]):
            if i in by:
                out.add(i)
    loggers = {str(f.j["self"]) for f in fns if f.j.get("trait") == LOGGER}
    reach = [f.id for f in fns if f.j.get("exp") and str(f.j.get("self")) not in loggers]
    reach += [f.id for f in fns if f.j.get("trait") not in (None, LOGGER) and str(f.j.get("self")) not in loggers]
    seen = set()
    while reach:
        i = reach.pop()
        if i not in seen:
            seen.add(i)
            reach += calls.get(i, ())
    return [(by[i], p) for i in sorted(seen) for p, _ in called(by[i]) if p in CLOCK]


def ids(o):
    """functions and closures a body mentions"""
    if isinstance(o, dict):
        for k in ("id", "rid"):
            if isinstance(o.get(k), str):
                yield o[k]
        for v in o.values():
            yield from ids(v)
    elif isinstance(o, list):
        for v in o:
            yield from ids(v)


def shared(c, t, seen):
    """something mutable two copies of a value of this type have in common"""
    k = t["k"]
    if k == "ptr":
        return "what a raw pointer points to"
    if k == "ref":
        return "what a mutable reference points to" if t["m"] else cell(c, t["t"], set())
    if k == "adt":
        if t["p"].startswith(RANDOM):
            return None
        if t["p"] in HANDLES:
            return cell(c, t["a"][0], set())
        a = c.prog.adts.get(t["p"])
        if a:
            if t["p"] in seen:
                return None
            seen.add(t["p"])
            for v in a["v"]:
                for f in v["f"]:
                    x = shared(c, f["ty"], seen)
                    if x:
                        return x
    sub = [t["t"]] if k in ("slice", "array") else t.get("a", []) if isinstance(t.get("a", []), list) else []
    for y in sub:
        x = shared(c, y, seen)
        if x:
            return x
    return None


def cell(c, t, seen):
    """a cell reachable through a shared handle"""
    if t["k"] == "adt":
        if t["p"].startswith(RANDOM):
            return None
        if t["p"] in CELLS:
            return None if generator(t) else "a " + t["p"].split("::")[-1]
        a = c.prog.adts.get(t["p"])
        if a and t["p"] not in seen:
            seen.add(t["p"])
            for v in a["v"]:
                for f in v["f"]:
                    x = cell(c, f["ty"], seen)
                    if x:
                        return x
    sub = [t["t"]] if t["k"] in ("slice", "array", "ref", "ptr") else t.get("a", [])
    for y in sub if isinstance(sub, list) else []:
        x = cell(c, y, seen)
        if x:
            return x
    return None
