import contextlib
import importlib
import json
import os
import pickle
import select
import sys
import time
import threading
import traceback

RULE = ("every obligation compares the gated value graph computed from the compiler's MIR of the current source "
        "(inlined across calls, loops solved as recurrences) with the graph the property demands, path by path "
        "under the stated domain; 'proved' = one canonical form, 'agree' = not unified by value numbering, but equal "
        "under every tried random interpretation of the opaque inputs, 'undecided' = neither")


def main(here, argv):
    sys.setrecursionlimit(200000)
    threading.stack_size(512 << 20)
    out = []

    def go():
        try:
            out.append(run(here, argv))
        except BaseException:
            traceback.print_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0] if out else 2


def analyse(pid, dump, thorough=False, seed=1):
    from program import Program
    from ctx import Ctx, Missing
    from decide import proving
    prog = Program(dump)
    c = Ctx(prog)
    mod = importlib.import_module("props." + pid.lower())
    viol = []
    try:
        mod.check(c)
    except Missing as e:
        c.missing.append(str(e))
    except Exception as e:
        c.failures.append(("check", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])))
    for m in c.missing:
        viol.append({"obligation": "anchor", "where": m, "detail": {"why": "not found: %s" % m}})
    for name, where, msg in c.structural:
        if msg:
            viol.append({"obligation": name, "where": where, "detail": {"why": msg}})
    stat = {}
    pending = []
    for ob in c.obs:
        if thorough:
            ob.rounds *= 6
            ob.limit *= 4
            ob.always = True
        with guarded(ob):
            todo = proving(ob)
            if todo:
                pending.append((ob, todo))
    sample_all(pending, seed)
    for ob in c.obs:
        stat[ob.status] = stat.get(ob.status, 0) + 1
        if ob.status == "violation":
            viol.append({"obligation": ob.name, "where": ob.where, "detail": ob.detail})
    if c.structural:
        stat["rule holds"] = sum(1 for s in c.structural if not s[2])
    return c, viol, stat


@contextlib.contextmanager
def guarded(ob):
    try:
        yield
    except RecursionError as e:
        ob.status, ob.detail = "undecided", repr(e)
    except Exception as e:
        ob.status, ob.detail = "undecided", "%s\n%s" % (e, traceback.format_exc()[-1500:])


WORKERS = 8
BUDGET = 300          # seconds for all the obligations value numbering leaves open


def sample_all(pending, seed):
    """interpret what value numbering left open, in parallel processes"""
    from decide import sampled, settled
    if not pending:
        return
    shares = max(1, WORKERS // len(pending))
    jobs = [(ob, todo, (i, shares)) for ob, todo in pending for i in range(shares)]
    t0 = time.time()
    live, results = {}, {}

    def start(j):
        ob, todo, share = jobs[j]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                if time.time() - t0 > BUDGET:
                    ob.limit = 0.5
                with guarded(ob):
                    sampled(ob, *todo, seed, share)
                with os.fdopen(w, "wb") as f:
                    pickle.dump((ob.status, ob.detail, ob.samples), f)
            finally:
                os._exit(0)
        os.close(w)
        live[r] = (j, pid, [])

    n = 0
    while n < len(jobs) or live:
        while n < len(jobs) and len(live) < WORKERS:
            start(n)
            n += 1
        for r in select.select(list(live), [], [])[0]:
            j, pid, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                results[j] = pickle.loads(b"".join(buf))
            except Exception:
                results[j] = ("undecided", "the interpretation did not end", 0)
    rank = {"violation": 0, "agree": 1, "undecided": 2}
    for i, (ob, _) in enumerate(pending):
        rs = [results[i * shares + k] for k in range(shares)]
        st, det, _ = min(rs, key=lambda x: rank.get(x[0], 3))
        proved = ob.status == "proved"
        ob.samples = sum(x[2] for x in rs)
        if proved and st != "violation":
            continue
        ob.status, ob.detail = st, det
        settled(ob)


def known(here, pid):
    """lines `finding: property=<id> key=<obligation>@<function>` of the committed file"""
    out = []
    p = os.path.join(here, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid) and " key=" in l:
                out.append(l.split(" key=", 1)[1].strip())
    return out


def key(v):
    return "%s@%s" % (v["obligation"], v["where"].split(" (")[0])


def run(here, argv):
    import build
    pid = argv[0]
    t0 = time.time()
    verbose = "-v" in argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = None
    if len(argv) > 1 and os.path.isdir(argv[1]):
        dump = argv[1]
    else:
        dump = tmp = build.dump(here)
    try:
        c, viol, stat = analyse(pid, dump, tier == "thorough", seed)
    finally:
        if tmp:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    if verbose:
        show(c, "-t" in argv)
    return report(here, pid, c, viol, stat, t0, tier, seed, verbose)


def show(c, terms):
    for name, where, msg in c.structural:
        print("%-10s %s | %s %s" % ("VIOLATED" if msg else "holds", name, where, msg or ""))
    for ob in c.obs:
        print("%-10s %s | %s %s" % (ob.status, ob.name, ob.where, ob.samples or ""))
        if ob.status == "undecided":
            print("     ", ob.detail)
        if ob.proofs and ob.open:
            print("      not unified:", ob.open)
        if terms and ob.status in ("agree", "undecided", "violation"):
            from terms import show
            print("      code:", show(ob.code)[:3000])
            if ob.spec is not None:
                print("      spec:", show(ob.spec)[:3000])
    for f in c.failures:
        print("FAILED", f[0], f[1])


def report(here, pid, c, viol, stat, t0, tier, seed, verbose):
    kn = known(here, pid)
    new = []
    for v in viol:
        if key(v) in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, key(v)))
        else:
            new.append(v)
    decided = sum(v for k, v in stat.items() if k != "undecided")
    und = [{"obligation": o.name, "where": o.where, "why": str(o.detail)[:300]} for o in c.obs
           if o.status == "undecided"] + [{"obligation": f[0], "why": f[1][-600:]} for f in c.failures]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "explanation": RULE,
            "obligations": len(c.obs) + len(c.structural),
            "by_outcome": stat,
            "functions_analysed": sorted(c.functions),
            "loops_solved": c.loops,
            "call_sites_resolved": c.ncalls,
            "unmodelled": c.notes,
            "undecided": und,
            "results": [{"obligation": o.name, "where": o.where, "outcome": o.status, "valuations": o.samples,
                         **({"unified": len(o.proofs) - len(o.open), "not_unified": o.open} if o.proofs else {})}
                        for o in c.obs] +
                       [{"obligation": n, "where": w, "outcome": "violation" if m else "rule holds"}
                        for n, w, m in c.structural],
            "violations": [{"obligation": v["obligation"], "where": v["where"]} for v in viol],
        },
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(here, "evidence", pid + ".json"), "w"), indent=1)
    for v in new:
        print("%s: %s: %s: %s" % (pid, v["where"], v["obligation"], str(v["detail"].get("why", ""))[:300]))
        if verbose:
            print(json.dumps(v["detail"], indent=1)[:3000])
    for u in und:
        print("undecided: %s %s" % (u.get("where", ""), u["obligation"]))
    print(pid, stat, "%.1fs" % (time.time() - t0), c.notes or "")
    if new:
        p = os.path.join(here, "evidence", pid + ".violation.json")
        json.dump({"property": pid, "rule": RULE, "violations": new,
                   "replay": "cd /verif && python3 check.py %s -v" % pid}, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if not decided and not viol:
        print("UNDECIDED: the analysis reached no verdict on any obligation")
    return 0
