"""Checks that compare the library with itself: build variants (C16, C21) and re-initiation /
independence of machines (C22). Built on the chart explorer; the model only drives the search."""
import json, os, struct
from concurrent.futures import ThreadPoolExecutor
from vlib import Check, BuildError, run, VERIF, CORES
from chartcheck import *

BASE = ("-O1",)


def explorations(T):
    """what every build variant explores"""
    v = []
    def add(c, **o): v.append((c, o))
    for c in ("orth4", "hpair", "flat", "nest", "orth", "orth3", "orthdeep", "hshallow", "hdeep", "hfull", "hmix", "deep5"):
        add(c, act=0x1b, counted=0, cost=0, queries=1, depth=99 if T else {"orth4": 4, "hpair": 6}.get(c, 99))
    add("flat", act=0x1f, counted=1, cost=1, throw=ANY, post=ANY, queue=2, postvalue=1, queries=1, depth=99 if T else 5)
    for c in ("hfull", "orth", "nest"):
        add(c, act=0x1f, counted=1, cost=1, throw=ANY, post=REACT | EXIT | UNCONS, queue=1, queries=1, depth=99 if T else 3)
    for c, d in (("flat", 99), ("nest", 3), ("orth", 2), ("hfull", 2), ("orth3", 1)):
        add(c, x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, depth=99 if T else d)
    for c in ("decl", "decl2", "decl3"):
        add(c, act=0x1f, counted=1, kinds=3, cost=1, queue=2, post=UNCONS | REACT, postkinds=2, queries=1, depth=99 if T else 4)
    add("declx", x=True, act=0x1f, counted=0, kinds=3, cost=1, throw=ANY, exccost=9, queue=1)
    return v


def compare(chk, variants, T, budget):
    """variants: [(name, flags, chart options)], the first one is the reference"""
    exps = explorations(T)
    jobs = []
    for vn, flags, co in variants:
        for c, o in exps:
            o = dict(o)
            j = J(c, flags=flags, x=o.pop("x", False), **dict(co, **o))
            j.variant = vn
            jobs.append(j)
    build(chk, jobs)

    def one(i):
        j = jobs[i]
        base = chk.path("d%d" % i)
        j.base = base
        j.args = ["%s=%s" % kv for kv in dict(j.opts, chart=j.key, own=0, budget=budget).items()]
        j.res = run([j.build.exe] + j.args + ["out=" + base + ".json", "cur=" + base + ".cur", "vio=" + base + ".vio", "digest=" + base + ".dig"], timeout=budget + 120, env=ENV)
        j.st = None
        if j.res.rc == 0:
            j.st = json.load(open(base + ".json"))
    with ThreadPoolExecutor(CORES) as ex: list(ex.map(one, range(len(jobs))))
    n = len(exps)
    details = []
    for e in range(n):
        ref = jobs[e]
        for v in range(1, len(variants)):
            compare_one(chk, ref, jobs[v * n + e], details)
        if ref.st:
            chk.cov["states"] += ref.st["states"]
            if ref.st["sample"]: chk.samples.append("%s: %s" % (ref.key, ref.st["sample"]))
    for j in jobs:
        if j.st:
            chk.cov["transitions"] += j.st["runs"]
            chk.extra.setdefault("walls", {})["%s %s %s" % (j.variant, j.key, " ".join(j.args))] = [round(j.st["wall"], 1), j.st["runs"]]
            if not j.st["complete"]: chk.incomplete("%s %s (%s): stopped by its time budget" % (j.key, " ".join(j.args), j.variant))
    chk.extra["comparisons"] = details


def crashed(j): return j.res.rc < 0 or j.res.rc in (77, 134, 139)


def compare_one(chk, a, b, details):
    if crashed(a) or crashed(b):
        if crashed(a) and crashed(b):
            chk.incomplete("%s: crashes in both %s and %s" % (a.key, a.variant, b.variant)); return
        c = a if crashed(a) else b
        hist = open(c.base + ".cur", "rb").read().split(b"\0")[0].decode("utf-8", "replace")
        chk.violation("%s: build variant '%s' crashes or hangs (rc %d) where '%s' does not\n%s\n%s" % (c.key, c.variant, c.res.rc, (b if c is a else a).variant, hist, c.res.out[-600:]),
                      "# explorer options: %s\n# build variant: %s %s\n%s\n%s" % (" ".join(c.args), c.variant, " ".join(c.flags), hist, c.res.out[-3000:]))
        return
    if a.st is None or b.st is None: raise BuildError("explorer failed: %s" % " ".join(a.args), a.res.out + b.res.out)
    x, y = open(a.base + ".dig", "rb").read(), open(b.base + ".dig", "rb").read()
    n = min(len(x), len(y))
    if x[:n] == y[:n] and (len(x) == len(y) or not (a.st["complete"] and b.st["complete"])):
        chk.cov["traces_validated_against_impl"] += n // 8
        details.append({"chart": a.key, "options": " ".join(a.args), "variants": [a.variant, b.variant], "runs_compared": n // 8})
        return
    lo, hi = 0, n // 8
    step = 1 << 16
    while lo < hi and x[lo * 8:(lo + step) * 8] == y[lo * 8:(lo + step) * 8]: lo += step
    while lo < hi and x[lo * 8:lo * 8 + 8] == y[lo * 8:lo * 8 + 8]: lo += 1
    text = "# first difference in run %d of: %s\n" % (lo, " ".join(a.args))
    for j in (a, b):
        r = run([j.build.exe] + j.args + ["stopat=%d" % lo, "vio=" + j.base + ".vio"], timeout=200, env=ENV)
        text += "# ---- build variant '%s' (%s)\n%s\n" % (j.variant, " ".join(j.flags), open(j.base + ".vio").read() if os.path.exists(j.base + ".vio") and r.rc == 3 else "(run not reached: rc %d)\n%s" % (r.rc, r.out[-1500:]))
    chk.violation("%s: build variants '%s' and '%s' behave differently\n%s" % (a.key, a.variant, b.variant, text[:1500]), text)


def simple_program(chk, name, src, flags, args=(), timeout=300, libs=()):
    """builds and runs a stand-alone exhaustive harness that prints one JSON line {"states", "transitions", ...};
    exit 1: violation described on stdout"""
    exe = chk.path(name)
    srcs = src if isinstance(src, (list, tuple)) else [src]
    units, objs = [], []
    for s in srcs:
        o = chk.path("%s-%s.o" % (name, os.path.basename(s)))
        units.append((os.path.join(VERIF, "engine", s), o, list(flags))); objs.append(o)
    chk.compile_all(units)
    chk.link(objs, exe, list(flags) + list(libs))
    r = run([exe] + list(args), timeout=timeout, env=ENV)
    line = [l for l in r.out.splitlines() if l.startswith("{")]
    if r.rc == 0 and line:
        st = json.loads(line[-1])
        chk.cov["states"] += st.get("states", 0); chk.cov["transitions"] += st.get("transitions", 0)
        chk.cov["traces_validated_against_impl"] += st.get("traces", 0)
        if not st.get("complete", True): chk.incomplete(name + ": not completed")
        if st.get("sample"): chk.samples.append("%s: %s" % (name, st["sample"]))
        chk.extra.setdefault("programs", []).append(dict(st, program=name, options=" ".join(args)))
        return st
    if r.rc in (1, 77, 134, 139) or r.rc < 0:
        why = "violation" if r.rc == 1 else "crash or hang (rc %d)" % r.rc
        chk.violation("%s: %s\n%s" % (name, why, r.out[-2500:]), "# %s %s\n# flags: %s\n%s\n" % (name, " ".join(args), " ".join(flags), r.out[-20000:]))
        return None
    raise BuildError("%s failed (rc %d)" % (name, r.rc), r.out)


def c16(tier):
    T = tier == "thorough"
    chk = Check("C16", tier)
    try:
        compare(chk, [("built-in type information", BASE, {}), ("native RTTI", BASE + ("-DBOOST_STATECHART_USE_NATIVE_RTTI",), {})], T, 400 if T else 100)
        for vn, f in (("builtin", ()), ("native", ("-DBOOST_STATECHART_USE_NATIVE_RTTI",)), ("builtin-ndebug", ("-DNDEBUG",))):
            simple_program(chk, "typeids-" + vn, ["typeids.cpp", "typeids2.cpp"], BASE + f, args=["depth=%d" % (6 if T else 5)])
        return chk.finish("model_checking",
            "explicit-state search; transitions: runs of (state, operation, environment decisions) per build variant; traces_validated: runs whose complete logs agree between the variants",
            "the listed charts and options; type identifiers: all pairs and triples of the harness's types, all sequences of custom-identifier assignments up to the depth")
    finally:
        chk.close()


def c21(tier):
    T = tier == "thorough"
    chk = Check("C21", tier)
    try:
        compare(chk, [("debug checks, threads, std::allocator", BASE, {}), ("NDEBUG", BASE + ("-DNDEBUG",), {}), ("no threads", BASE + ("-DBOOST_DISABLE_THREADS",), {}),
                      ("custom allocator", BASE, {"alloc": True})] +
                     ([("NDEBUG, no threads, custom allocator", BASE + ("-DNDEBUG", "-DBOOST_DISABLE_THREADS"), {"alloc": True}), ("clang", BASE + ("-verif-clang",), {})] if T else []),
                T, 300 if T else 100)
        simple_program(chk, "results-debug", "results.cpp", BASE + ("-DBOOST_ENABLE_ASSERT_HANDLER",), args=["depth=%d" % (7 if T else 6)])
        simple_program(chk, "results-ndebug", "results.cpp", BASE + ("-DBOOST_ENABLE_ASSERT_HANDLER", "-DNDEBUG"), args=["depth=%d" % (7 if T else 6)])
        return chk.finish("model_checking",
            "explicit-state search; transitions: runs of (state, operation, environment decisions) per build variant; traces_validated: runs whose complete logs agree between the variants",
            "the listed charts and options; results: every straight-line program of create/copy/destroy/return on up to 3 result objects up to the depth")
    finally:
        chk.close()


def c22(tier):
    T = tier == "thorough"
    chk = Check("C22", tier)
    try:
        jobs = []
        for c in ("flat", "nest", "orth", "hshallow", "hdeep", "hfull", "orth3", "deep5"):
            jobs.append(J(c, act=0x1b, counted=0, cost=1, throw=ANY, mode="reinit", taildepth=3 if T or c in ("flat", "nest", "hfull") else 2, depth=99 if T else 4))
        jobs.append(J("flat", act=0x1f, counted=1, cost=1, throw=ANY, post=ANY, queue=2, mode="reinit", taildepth=3 if T else 2, tailcost=1))
        for c in ("nest", "orth", "hfull"):
            jobs.append(J(c, act=0x1f, counted=0, cost=1, post=ANY, queue=2, mode="reinit", taildepth=2, depth=99 if T else 3))
        for c in ("flat", "nest", "orth", "hfull"):
            jobs.append(J(c, x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, mode="reinit", taildepth=2, depth=99 if T else 2 if c == "hfull" else 3))
        for c in ("flat", "nest", "declx"):      # also faults in the reaction to the exception event
            jobs.append(J(c, x=True, act=0x1b, counted=0, cost=2, throw=ANY, exccost=1, mode="reinit", taildepth=2, tailcost=0, depth=99 if T and c == "flat" else 2))
        for c in ("decl", "decl2", "decl3"):
            jobs.append(J(c, act=0x1f, counted=1, kinds=3, cost=0, queue=2, mode="reinit", taildepth=2))
        pairs = [("flat", "flat", 3, 2), ("nest", "nest", 2, 2), ("orth", "orth", 2, 2), ("hfull", "hfull", 3, 2), ("hshallow", "hshallow", 2, 2), ("hfull", "flat", 3, 2),
                 ("flat", "hfull", 2, 3), ("decl", "decl", 3, 2), ("orth", "hdeep", 2, 2), ("decl2", "nest", 3, 2)]
        for a, b, d, t in pairs:
            j = J(a, act=0x1f if "decl" in a or a == "flat" else 0x1b, counted=0, cost=0, queue=1, kinds=2, mode="pair", taildepth=t, depth=d + (1 if T else 0), other=b)
            jobs.append(j)
            if a != b: jobs.append(J(b, act=0x1b, counted=0, cost=0, depth=1))     # makes sure the other chart is built
        jobs.append(J("flat", act=0x1f, counted=1, cost=1, throw=ANY, post=ANY, mode="pair", taildepth=2, depth=2, tailcost=0))
        jobs.append(J("flat", act=0x1f, counted=1, cost=0, mode="pair", throw=ANY, post=ANY, taildepth=2, depth=2, tailcost=1))
        jobs.append(J("flat", x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, mode="pair", taildepth=2, depth=2, tailcost=1))
        if T: jobs.append(J("nest", x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, mode="pair", taildepth=2, depth=2, tailcost=0))
        build(chk, jobs)
        run_jobs(chk, jobs, 0, 700 if T else 100)
        return chk.finish("model_checking",
            "explicit-state search; transitions: distinct (state, operation, environment decisions) of the searches plus every (reached state, continuation) or (operation of A, call in it, operation of B) combination, each executed and compared with the undisturbed execution",
            "the listed charts and options: re-initiation from every reached state followed by every history up to taildepth; every operation of one machine nested in every call of an operation of the other")
    finally:
        chk.close()


CHECKS = {"C16": c16, "C21": c21, "C22": c22}
