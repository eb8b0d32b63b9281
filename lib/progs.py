"""Stand-alone exhaustive harnesses: every program is built from /repo's current headers once per set of
flags and run once per set of arguments; each run prints one JSON line with what it covered."""
import itertools, json, os, time
from concurrent.futures import ThreadPoolExecutor
from vlib import Check, BuildError, run, VERIF, CORES

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=77", UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=1")


class Prog:
    def __init__(self, name, srcs, flags=(), libs=(), runs=((),), compiler=None):
        self.name, self.srcs, self.flags, self.libs = name, list(srcs), tuple(flags), tuple(libs)
        self.runs = [r.split() if isinstance(r, str) else list(r) for r in runs]
        self.exe = None


def run_programs(chk, progs, timeout=700, deadline=800):
    units, seen = [], set()
    for p in progs:
        p.objs = []
        for s in p.srcs:
            s, flags = s if isinstance(s, tuple) else (s, p.flags)
            src = os.path.join(VERIF, "engine", s)
            o = chk.path("o-%s-%08x.o" % (os.path.basename(s), hash((s, flags)) & 0xffffffff))
            if (src, o) not in seen: units.append((src, o, list(flags))); seen.add((src, o))
            p.objs.append(o)
    chk.compile_all(units)
    def ln(p):
        p.exe = chk.path("x-" + p.name)
        chk.link(p.objs, p.exe, [f for f in p.flags if f.startswith("-f") or f.startswith("-verif-clang")] + list(p.libs))
    with ThreadPoolExecutor(CORES) as ex: list(ex.map(ln, progs))
    todo = [(p, a) for p in progs for a in p.runs]
    def go(t):
        """every run ends before the deadline of the whole check; a few violations are enough"""
        left = deadline - (time.time() - chk.t0)
        if left < 3 or len(bad) >= 6: return None
        args = ["budget=%d" % max(1, min(int(x[7:]), left - 2)) if x.startswith("budget=") else x for x in t[1]]
        r = run([t[0].exe] + args, timeout=max(5, min(timeout, left + 20)), env=ENV)
        if r.rc != 0 and r.rc != -1000: bad.append(1)
        return r
    bad = []
    with ThreadPoolExecutor(CORES) as ex: results = list(ex.map(go, todo))
    stats, table = [], {}
    for (p, a), r in zip(todo, results):
        name = p.name + " " + " ".join(x if len(x) < 60 else x[:25] + "..." + x[-12:] for x in a)
        if r is None:
            if not bad: chk.incomplete(name + ": not started before the deadline")
            continue
        line = [l for l in r.out.splitlines() if l.startswith("{")]
        if r.rc == 0 and line:
            st = json.loads(line[-1])
            chk.cov["states"] += st.get("states", 0); chk.cov["transitions"] += st.get("transitions", 0)
            chk.cov["traces_validated_against_impl"] += st.get("traces", 0)
            if not st.get("complete", True): chk.incomplete(name + ": stopped by its budget" + (": " + st["left"] if st.get("left") else ""))
            sample = st.pop("sample", "")
            if sample and len(chk.samples) < 8 and not any(x.startswith(p.name + " ") for x in chk.samples[-3:]): chk.samples.append("%s: %s" % (name, sample))
            key = p.name if "scenarios" in st else name
            t = table.setdefault(key, dict(program=key, flags=" ".join(f for f in p.flags if "/" not in f), runs=0))
            t["runs"] += 1
            for k, v in st.items():
                if k in ("maxdepth", "depth", "outcomes"): t[k] = max(t.get(k, 0), v)
                elif isinstance(v, bool): t[k] = t.get(k, True) and v
                elif isinstance(v, (int, float)): t[k] = round(t.get(k, 0) + v, 1)
                elif v: t[k] = v
            stats.append(st)
        elif r.rc in (1, 77, 134, 139) or (r.rc < 0 and r.rc != -1000):
            why = "violation" if r.rc == 1 else "crash (rc %d)" % r.rc
            if len(chk.violations) < 5:
                chk.violation("%s: %s\n%s" % (name, why, r.out[:2500]), "# %s\n# flags: %s\n# arguments: %s\n%s\n" % (name, " ".join(p.flags), " ".join(a), r.out[-30000:]))
        elif r.rc == -1000: chk.incomplete(name + ": timed out")
        else: raise BuildError("%s failed (rc %d)" % (name, r.rc), r.out)
    chk.extra["programs"] = list(table.values())
    return stats


def parts(n, args): return [args + " parts=%d part=%d" % (n, i) for i in range(n)]


THR = ("-lboost_thread", "-lpthread")


def c18(tier):
    T = tier == "thorough"
    chk = Check("C18", tier)
    try:
        ps = []
        san = ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")
        variants = [("worker", (), THR), ("scheduler", ("-DUSE_SCHEDULER",), THR),
                    ("nothreads", ("-DBOOST_DISABLE_THREADS", "-DCUSTOM_ALLOC", "-DUSE_SCHEDULER"), ())]
        for n, f, l in variants:
            d = 7 if T else 5
            runs = parts(8, "depth=%d" % d) if T else ["depth=%d" % d]
            runs += ["wide=1", "bfs=1 depth=%d" % (18 if T else 12), "bfs=1 batch=1 queue=26 depth=%d" % (7 if T else 6)]
            if n != "nothreads": runs += (parts(8, "blocking=1 depth=%d" % d) if T else ["blocking=1 depth=%d" % d]) + ["blocking=1 bfs=1 depth=%d" % (18 if T else 12)]
            ps.append(Prog(n, ["worker.cpp"], ("-O1",) + f, l, [r + " budget=%d" % (500 if T else 100) for r in runs]))
            ps.append(Prog(n + "-asan", ["worker.cpp"], san + f, l, ["depth=4", "bfs=1 depth=6"]))
        run_programs(chk, ps)
        return chk.finish("model_checking",
            "states: distinct operation sequences (enumeration) or model states (search); transitions: operations executed on the real worker; traces_validated: sequences executed from scratch and compared with the reference queue after every operation",
            "one thread; sequences up to the listed depth over: queue an item of each of 6 kinds by reference or copy, queue an empty item, run with limit 0..3, terminate, query; worker and scheduler, threaded (blocking and not), single-threaded with own allocator")
    finally: chk.close()


def c19(tier):
    T = tier == "thorough"
    chk = Check("C19", tier)
    try:
        san = ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")
        runs = ["args=1"] + (parts(16, "depth=6") + ["bfs=1 depth=8"] if T else parts(8, "depth=5") + ["bfs=1 depth=6"])
        runs += parts(16, "ext=1 depth=5") + ["ext=1 bfs=1 depth=5"] if T else parts(8, "ext=1 depth=4") + ["ext=1 bfs=1 depth=4"]
        ps = [Prog("processors", ["procs.cpp"], ("-O1",), THR, [r + " budget=%d" % (500 if T else 200) for r in runs]),
              Prog("processors-asan", ["procs.cpp"], san, THR, ["args=1", "depth=4 budget=150", "bfs=1 depth=4 budget=150", "ext=1 depth=3 budget=150", "ext=1 bfs=1 depth=3 budget=150"]),
              Prog("processors-allocator", ["procs.cpp"], ("-O1", "-DCUSTOM_ALLOC"), THR, ["args=1", "depth=4", "ext=1 depth=3"]),
              Prog("processors-nothreads", ["procs.cpp"], ("-O1", "-DBOOST_DISABLE_THREADS"), (), ["args=1", "depth=4", "ext=1 depth=3"])]
        run_programs(chk, ps)
        return chk.finish("model_checking",
            "states: distinct operation sequences (enumeration) or model states (search); transitions: operations executed on the real scheduler; traces_validated: sequences executed from scratch and compared with the model after every operation",
            "one thread, up to the listed number of operations on the handles of a scheduler; args=1: every creation overload with 0 to 6 arguments, by value and by reference, with a failure in every constructor; ext=1: also constructors that send events, operations that throw, reactions that create and destroy other processors")
    finally: chk.close()



def concurrent(name, src, lists, flags=(), args=""):
    """a harness under the schedule explorer; lists: scenario lists, one process each"""
    h = ("-O1", "-g", "-fsanitize=thread", "-I" + os.path.join(VERIF, "engine", "shadow")) + tuple(flags)
    runs = []
    for l in lists:
        if l: runs.append((["scenario=" + ";".join(l)] + args.split()))
    return Prog(name, [(src, h), ("conc.cpp", ("-O3", "-g"))], (), ("-lboost_thread", "-ldl", "-lpthread"), runs)


def deal(l, n): return [l[i::n] for i in range(n)]


def chunks(l, size): return [l[i:i + size] for i in range(0, len(l), size)]


def explorer_selfcheck(chk, prog, scenarios):
    """partial-order reduction against the complete enumeration of all schedules: same set of outcomes"""
    res = []
    if chk.violations: return
    for s in scenarios:
        if time.time() - chk.t0 > 600: break
        runs = [run([prog.exe, "scenario=" + s, "marks=0", "budget=60"] + x, timeout=100) for x in ([], ["full=1"])]
        for r in runs:
            if r.rc == 1: chk.violation("%s: violation\n%s" % (s, r.out[:2500]), "# scenario=%s\n%s\n" % (s, r.out[-30000:]))
        if chk.violations: return
        lines = [[l for l in r.out.splitlines() if l.startswith("{")] for r in runs]
        if not all(lines): continue
        a, b = [json.loads(l[-1]) for l in lines]
        if not (a["complete"] and b["complete"]): continue
        if a["outcomes"] != b["outcomes"]: raise BuildError("schedule explorer: reduction loses outcomes in " + s, str(a) + str(b))
        res.append({"scenario": s, "reduced": a["traces"], "all_schedules": b["traces"], "outcomes": a["outcomes"]})
    chk.extra["reduction_compared_with_full_enumeration"] = res


def c13(tier):
    T = tier == "thorough"
    chk = Check("C13", tier)
    try:
        san = ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")
        ps = [Prog("events", ["events.cpp"], ("-O1",), (), ["wide=1"] + ((parts(16, "depth=6 budget=300") + ["bfs=1 depth=8 budget=300"]) if T else parts(8, "depth=5 budget=100") + ["bfs=1 depth=7 budget=100"])),
              Prog("events-asan", ["events.cpp"], san, (), ["wide=1", "depth=3", "bfs=1 depth=5"]),
              Prog("events-nothreads", ["events.cpp"], ("-O1", "-DBOOST_DISABLE_THREADS"), (), ["depth=4"])]
        one = list("cfzvnqxdkoa")
        two = "ce cz cs fe fz ff qg qx qt dg dt dd dz kz kk oo oz og xx nz vz cc qz az".split()
        three = [",".join(x) for x in itertools.combinations_with_replacement(one, 3)]
        pairs1 = [",".join(x) for x in itertools.combinations_with_replacement(one, 2)]
        pairs2 = [",".join(x) for x in itertools.combinations_with_replacement(two, 2)]
        # the scenarios that take longest go to the thorough tier: weight ~ number of counter updates
        weight = {"f": 4, "o": 5, "q": 2, "d": 3, "k": 3, "c": 2}
        w = lambda s: sum(weight.get(c, 1) for c in s)
        heavy = [s for s in pairs2 if w(s) >= 15] + [s for s in three if w(s) >= 10]
        light = sorted([s for s in pairs2 + three if s not in heavy], key=w, reverse=True)
        b = "each=%d budget=%d" % (500 if T else 40, 700 if T else 60)
        ps.append(concurrent("sharing", "cevents.cpp", chunks(pairs1, 4), (), b))
        ps.append(concurrent("sharing-ndebug", "cevents.cpp", [[s] for s in (heavy if T else [])] + deal(light, 24), ("-DNDEBUG",), b))
        ps.append(concurrent("sharing-allocator", "cevents.cpp", deal(pairs1 + (pairs2 if T else []), 8 if T else 2), ("-DNDEBUG", "-DCUSTOM_ALLOC"), b))
        run_programs(chk, ps)
        explorer_selfcheck(chk, ps[-2], ["c,c", "z,v", "n,q"])
        return chk.finish("model_checking",
            "sequences: states: distinct operation sequences or model states, transitions: operations executed; threads: states/traces: distinct partial orders of the synchronization operations (each one execution of the real code), transitions: scheduled operations",
            "sequences up to the listed depth over 43 operations on two pointers, a stack event and a machine; threads: all schedules of 2 threads running programs of up to 2 operations and of 3 threads running one operation each on a shared event (see programs), sequentially consistent atomics with the memory orders' happens-before edges",
            ["boost::shared_ptr's counters and the C++ runtime are trusted", "no weak-memory reordering beyond missing happens-before edges is explored"])
    finally: chk.close()


def c17(tier):
    T = tier == "thorough"
    chk = Check("C17", tier)
    try:
        progs = [a + b for a in "pqkxt" for b in ["", "p", "q", "k", "x", "t"]]
        workers = ("Bw", "Nww", "N1w", "B1w") + (("B2w", "N2w", "B11w", "N111") if T else ())
        pairs = ["%s,%s,%s" % (w, a, b) for w in workers for a, b in itertools.combinations_with_replacement(progs, 2)]
        singles = ["%s,%s" % (w, a + b + c) for w in workers for a in "pqkxt" for b in "pqkxtr" for c in ["", "p", "x", "k", "t"]]
        threes = ["%s,%s,%s,%s" % ((w,) + x) for w in workers for x in itertools.combinations_with_replacement("pqkxt", 3)]
        marked = ["%s,%s,%s" % (w, a, b) for w in workers for a, b in itertools.combinations_with_replacement("pqkxtr", 2)]
        marked += ["%s,%s" % (w, a + b) for w in workers for a in "pqkxt" for b in "pqkxt"]
        marked2 = ["%s,%s,%s" % (w, a, b) for w in ("Bw", "Nww") for a in progs for b in "pt"] if T else []
        long_ = ["%s,%s,%s" % (w, a, b) for w in ("Bw", "Nww") for a in ("ppp", "ppt", "pxt", "qkp") for b in ("ppp", "pxp", "qt", "pt")] if T else []
        b = "budget=%d each=%d" % (600 if T else 70, 60 if T else 20)
        ps = [concurrent("worker", "cworker.cpp", chunks(long_, 2) + deal(pairs + singles + threes, 24), (), "marks=0 " + b),
              concurrent("worker-realtime", "cworker.cpp", chunks(marked2, 4) + deal(marked, 16), (), b),
              concurrent("scheduler", "cworker.cpp", deal(singles + threes[:len(threes) if T else 40], 2), ("-DUSE_SCHEDULER",), "marks=0 " + b)]
        run_programs(chk, ps)
        explorer_selfcheck(chk, ps[0], ["Bw,p", "Bw,pp", "Bw,p,p", "Bw,k,p", "Nw,p,p", "Nw1,p,p", "N1w,p,t", "Nx,ww,t"])
        return chk.finish("model_checking",
            "states/traces: distinct partial orders of the synchronization operations, each one execution of the real code; transitions: scheduled operations (mutex, condition variable, atomic); every execution checked for data races, deadlock, lost wake-ups, leaks and the FIFO/termination rules",
            "every scenario of the enumerated families (worker program x thread programs; see programs: number of scenarios), all schedules without preemption bound, one spurious wake-up per waiting thread; worker-realtime additionally explores every order of operation begins relative to operation ends",
            ["POSIX threads primitives behave as modelled (mutex, condition variable)", "boost::function, boost::bind and the C++ runtime are trusted"])
    finally: chk.close()


def c20(tier):
    T = tier == "thorough"
    chk = Check("C20", tier)
    try:
        L = "012abcdefghklmnxySDETU"
        one = [m + a for m in "qtn" for a in list(L) + [x + y for x in L for y in L]]
        two = [m + a + "," + c for m in "qtn" for a in L for c in L if a <= c]
        three = [m + a + "," + b + "," + c for m in "qn" for a, b, c in itertools.combinations_with_replacement("01aSDcT", 3)] if T else []
        longer = [m + x + y + z for m in "qtn" for x in "0abcS" for y in "01adSDT" for z in "01beET"] if T else []
        sp = "commute=1 spurious=%d" % (1 if T else 0)
        b = " budget=%d each=%d" % (700 if T else 100, 120 if T else 40)
        ps = [concurrent("async", "casync.cpp", chunks(two, 6) + chunks(one, 12) + chunks(longer, 6) + chunks(three, 1), (), sp + b),
              concurrent("async-counts", "casync.cpp", [[x] for x in (["qS", "qa", "nS", "na", "n0", "n01"] if T else ["nS", "n0", "q0"])], ("-DNDEBUG",), "spurious=0 budget=%d" % (600 if T else 60))]
        run_programs(chk, ps)
        return chk.finish("model_checking",
            "states/traces: distinct partial orders of the synchronization operations, each one execution of the real code; transitions: scheduled operations; every execution checked for data races, use of freed memory, leaks, deadlock, exclusive use of processors, per-sender order and exactly-once processing",
            "two schedulers in two threads with two or three machines, client threads running every program of the enumerated families (up to 2 operations for one client, 1 each for two clients; thorough: longer and three clients); all schedules without preemption bound; reference count updates that do not reach zero are treated as commuting (C13 decides their exactness), async-counts drops that assumption",
            ["boost::shared_ptr's counters, boost::function and the C++ runtime are trusted"])
    finally: chk.close()


CHECKS = {"C13": c13, "C17": c17, "C18": c18, "C19": c19, "C20": c20}
