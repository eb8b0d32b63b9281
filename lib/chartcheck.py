"""Checks decided by the chart explorer: build the charts a property needs against /repo's
headers, run all exploration jobs in parallel, confirm what they report."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import Check, BuildError, run, VERIF, CORES
sys.path.insert(0, os.path.join(VERIF, "engine"))
from charts import CHARTS

SEARCH, SEQ, CONFIG, TRIG, EVENT, OUTCOME, QUERY, MEM, CRASH = [1 << i for i in range(9)]
ALL = 511

# callout bits
ENTER, EXIT, DTOR, REACT, ACTION, INSTATE, UNCONS = [1 << i for i in range(7)]
ANY = ENTER | EXIT | REACT | ACTION | INSTATE | UNCONS
FWD, DISC, DEFER, TERM, TRANS = 1, 2, 4, 8, 16

ASAN = ("-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fno-sanitize=vptr")
RELAX = ("-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT",)


class Build:
    """charts (with options) x flags -> one executable"""
    def __init__(self, flags=("-O1",)):
        self.flags, self.charts = tuple(flags), {}

    def add(self, chart, **opts):
        key = chart + "".join("_%s%s" % (k, "" if v is True else v) for k, v in sorted(opts.items()) if v)
        self.charts[key] = (chart, opts)
        return key


class Job:
    def __init__(self, flags, chart, copts, opts):
        self.flags, self.chart, self.copts, self.opts = tuple(flags), chart, copts, opts


def J(chart, flags=("-O1",), x=False, relaxed=False, alloc=False, actstyle=None, **opts):
    copts = {}
    if x: copts["translator"] = x
    if relaxed:
        copts["relaxed"] = True; copts["actstyle"] = actstyle or "all"; flags = tuple(flags) + RELAX
    elif actstyle: copts["actstyle"] = actstyle
    if alloc: copts["alloc"] = True
    return Job(flags, chart, copts, opts)


def build(chk, jobs):
    builds = {}
    for j in jobs:
        b = builds.setdefault(j.flags, Build(j.flags))
        j.key = b.add(j.chart, **j.copts)
        j.build = b
    units = []
    for n, (flags, b) in enumerate(builds.items()):
        b.dir = chk.path("b%d" % n)
        os.makedirs(b.dir)
        b.exe = os.path.join(b.dir, "explore")
        b.objs = []
        srcs = [os.path.join(VERIF, "engine", "explore.cpp")]
        for key, (chart, opts) in b.charts.items():
            text = CHARTS[chart](**opts).cpp()
            text = text.replace("chart_%s" % chart, "chart_%s" % key).replace('d.name = "%s"' % chart, 'd.name = "%s"' % key)
            src = os.path.join(b.dir, key + ".cpp")
            with open(src, "w") as f: f.write(text)
            srcs.append(src)
        for s in srcs:
            o = os.path.join(b.dir, os.path.basename(s)[:-4] + ".o")
            b.objs.append(o)
            units.append((s, o, list(flags)))
    chk.compile_all(units)
    for b in builds.values(): chk.link(b.objs, b.exe, list(b.flags))
    return builds


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=1")


def run_jobs(chk, jobs, own, budget, known=""):
    """runs all exploration jobs; own: the violation classes this property answers for"""
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].opts.get("weight", 1))

    def one(i):
        j = jobs[i]
        base = chk.path("job%d" % i)
        j.out, j.cur, j.vio = base + ".json", base + ".cur", base + ".vio"
        args = ["%s=%s" % kv for kv in dict(j.opts, chart=j.key).items() if kv[0] != "weight"]
        args += ["own=%d" % own, "budget=%d" % j.opts.get("budget", budget)]
        if known: args.append("known=" + known)
        j.args = args
        j.res = run([j.build.exe] + args + ["out=" + j.out, "cur=" + j.cur, "vio=" + j.vio], timeout=budget + 120, env=ENV)
        return j
    with ThreadPoolExecutor(CORES) as ex: list(ex.map(one, order))
    details = []
    for j in jobs:
        st = None
        if os.path.exists(j.out) and os.path.getsize(j.out):
            try: st = json.load(open(j.out))
            except ValueError: st = None
        if j.res.rc == 0 and st:
            c = chk.cov
            c["states"] += st["states"]; c["transitions"] += st["runs"]; c["traces_validated_against_impl"] += st["outcomes"]
            chk.extra["operations_executed"] = chk.extra.get("operations_executed", 0) + st["ops"]
            chk.extra["user_code_calls_compared"] = chk.extra.get("user_code_calls_compared", 0) + st["callouts"]
            if st["sample"]: chk.samples.append("%s: %s" % (j.key, st["sample"]))
            if not st["complete"]: chk.incomplete("%s %s: stopped by its time budget in depth %d" % (j.key, " ".join(j.args), st["depth"]))
            details.append({k: st[k] for k in ("chart", "states", "runs", "depth", "faults", "posts", "handled", "thrown", "defers", "outcomes", "foreign", "unexpanded", "allocfaults", "tails", "complete", "wall")})
            details[-1]["options"] = " ".join(a for a in j.args if not a.startswith("chart="))
            if st.get("known"):
                chk.extra.setdefault("known_finding_runs", 0)
                chk.extra["known_finding_runs"] += st["known"]
                chk.known_finding(known, chk.findings[chk.prop][known])
            continue
        confirm(chk, j, own, known)
    chk.extra.setdefault("jobs", []).extend(details)
    return jobs


def confirm(chk, j, own, known):
    """a job reported a violation, crashed or hung: replay it in a new process"""
    rp = None
    if j.res.rc == 1 and os.path.exists(j.vio): rp = j.vio
    elif os.path.exists(j.cur):
        text = open(j.cur, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
        if text.strip():
            rp = j.vio
            with open(rp, "w") as f: f.write(text)
    if not rp:
        raise BuildError("explorer failed (rc %d): %s" % (j.res.rc, " ".join(j.args)), j.res.out)
    r = run([j.build.exe] + j.args + ["replay=" + rp, "cur=" + j.cur], timeout=60, env=ENV)
    if any(a.startswith("mode=") for a in j.args):      # second run of the whole (short) comparison
        r = run([j.build.exe] + j.args + ["vio=" + rp, "cur=" + j.cur], timeout=300, env=ENV)
    bad = r.rc == 1 or r.rc < 0 or r.rc in (77, 134, 139)
    if j.res.rc in (0, 2) and not bad: raise BuildError("explorer failed (rc %d): %s" % (j.res.rc, " ".join(j.args)), j.res.out)
    if not bad:
        raise BuildError("a reported violation does not replay: %s" % " ".join(j.args), j.res.out + r.out)
    head = "# property %s, chart %s\n# flags %s\n# explorer options: %s\n# replay: build as lib/chartcheck.py does, then: explore %s replay=<this file>\n" % (
        chk.prop, j.key, " ".join(j.flags), " ".join(j.args), " ".join(j.args))
    text = head + open(rp).read() + "\n# ---- replay output\n# " + r.out[-6000:].replace("\n", "\n# ") + "\n"
    msg = [l for l in j.res.out.splitlines() if l.strip()][:12]
    if r.rc < 0 or r.rc in (77, 134, 139): msg = ["crash or hang (rc %d) in this history:" % r.rc] + open(rp).read().splitlines()[-6:] + r.out.splitlines()[-12:]
    chk.violation("%s: %s" % (j.key, "\n".join(msg)), text)
