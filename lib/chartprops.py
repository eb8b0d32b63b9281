"""What each chart property explores (quick and thorough) and which violations it answers for."""
from chartcheck import *
from progs import Prog, parts, run_programs

CUST = ["flat", "nest", "orth", "orth3", "orthdeep", "hshallow", "hdeep", "hfull", "hmix", "deep5", "orth4", "hpair"]
SMALL = ["flat", "nest", "orth", "deep5"]
MID = ["flat", "nest", "orth", "orth3", "orthdeep", "hshallow", "hfull", "deep5"]
HIST_S = ["hshallow", "hfull", "hmix", "hpair", "hreg3"]
HIST_D = ["hdeep", "hfull", "hmix", "hpair", "hdeep5", "hdreg3"]
BIG = ("hpair", "hreg3", "hdreg3")
DECL = ["decl", "decl2", "decl3"]


def lim(T, chart, **depths):
    """depth limits of the quick tier"""
    return {"depth": depths[chart]} if not T and chart in depths else {}


def c01(T):
    jobs = [J(c, act=0x1f, counted=0, queue=1, cost=0) for c in CUST]
    jobs += [J(c, act=FWD | DISC | TERM | TRANS, counted=0, cost=0, window=2 if T and c in SMALL else 1, queue=1) for c in (CUST if T else MID)]
    jobs += [J(c, act=0x1f, counted=0, kinds=3, queue=2, cost=1, post=UNCONS | REACT, postkinds=2, window=0) for c in DECL]
    jobs += [J(c, act=0x1f, counted=0, kinds=3, queue=1, cost=0, window=1) for c in DECL]
    jobs += [J(c, act=FWD | DISC | TERM | TRANS, counted=0, cost=1, post=UNCONS | REACT, queue=1) for c in (SMALL if not T else MID)]
    jobs += [J("declx", x=True, act=0x1f, counted=0, kinds=3, queue=1, cost=1, throw=ANY, exccost=9)]
    jobs += [J("declrole", act=0x1f, counted=0, kinds=3, queue=1, cost=0, window=1)]
    return jobs


def c02(T):
    jobs = [J(c, act=FWD | DISC | TRANS, counted=0, cost=0) for c in CUST]
    jobs += [J(c, act=FWD | TERM | TRANS, counted=0, cost=0, window=1) for c in (CUST if T else MID + ["hdeep"])]
    jobs += [J(c, act=0x1b, counted=0, cost=0, actstyle="none") for c in ("orth3", "orthdeep")]
    jobs += [J(c, act=0x1b, counted=0, kinds=3, queue=1, cost=0, window=1) for c in DECL + ["declrole"]]
    jobs += [J("roles", act=FWD | DISC | TRANS, counted=0, cost=0)]
    if T: jobs += [J(c, act=FWD | TRANS, counted=0, cost=0, window=2) for c in SMALL + ["orth3", "hfull"]]
    return jobs


def c03(T):
    jobs = [J(c, act=0x1b, counted=0, cost=0, window=1) for c in MID]
    jobs += [J(c, act=0x1b, counted=0, cost=1, throw=ANY, **lim(T, c, orth4=4, hpair=6)) for c in CUST]
    jobs += [J(c, x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9) for c in ("flat", "nest")]
    jobs += [J(c, x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, depth=99 if T else d)
             for c, d in (("orth", 3), ("orth3", 2), ("orthdeep", 2), ("hshallow", 2), ("hfull", 2))]
    jobs += [J(c, act=0x1f, counted=0, kinds=3, cost=0, queue=1) for c in DECL]
    return jobs


def c04(T):
    jobs = [J(c, act=FWD | DISC | TERM | TRANS, counted=0, cost=0, window=1) for c in (CUST if T else MID)]
    jobs += [J(c, act=FWD | DISC | TERM, counted=0, cost=0, window=2 if T else 1) for c in ("orth3", "orthdeep", "orth4", "hpair", "hdeep")]
    jobs += [J(c, act=0x1f, counted=0, cost=1, post=ANY, queue=2 if T else 1, **lim(T, c, orth=6)) for c in ("flat", "nest", "orth")]
    jobs += [J(c, act=FWD | TERM | TRANS | DEFER, counted=0, cost=0, queue=1) for c in ("orth3", "hshallow", "hdeep", "hfull")]
    jobs += [J(c, act=0x1f, counted=0, kinds=3, cost=0, queue=1, window=1) for c in DECL]
    jobs += [J(c, act=0x1b, counted=0, cost=1, throw=EXIT, post=EXIT) for c in ("orth3", "orthdeep", "hshallow")]
    return jobs


def c05(T):
    d = 2 if not T else 3
    jobs = [J(c, act=0x1b, counted=1, cost=2, post=ANY, postvalue=1, maxposts=2, depth=99) for c in ("flat",)]
    jobs += [J(c, act=0x1b, counted=0, cost=2, post=ANY, postvalue=1, maxposts=2, depth=99 if T else dd) for c, dd in (("nest", 3), ("orth", 2), ("deep5", 2))]
    jobs += [J(c, act=0x1b, counted=0, cost=1, post=ANY, postvalue=1, window=1 if T and c in SMALL else 0, **lim(T, c, orth4=3, hpair=5)) for c in CUST]
    jobs += [J("flat", act=0x1b, counted=0, cost=3, post=ANY, maxposts=3)]
    jobs += [J("flat", act=0x1b, counted=0, cost=4, post=REACT | UNCONS | EXIT, maxposts=4)]
    jobs += [J(c, act=0x1f, counted=0, kinds=2, cost=1, post=ANY, postkinds=2, queue=1) for c in DECL]
    jobs += [J(c, x=True, act=0x1b, counted=0, cost=2, post=ANY, throw=ANY, exccost=9, maxposts=2, depth=dd if not T else 99)
             for c, dd in (("flat", 99), ("nest", 2))]
    jobs += [J("orth", x=True, act=0x1b, counted=0, cost=2, post=ANY if T else REACT, throw=ANY, exccost=9, maxposts=1, depth=2)]
    jobs += [J("flat", act=0x1b, counted=0, cost=2, post=ANY, throw=ANY)]
    # many at once: 20 events per post, queues of 12 after a throw
    jobs += [J(c, act=FWD | TRANS, counted=0, cost=1, post=ANY, postvalue=1, burst=20, maxposts=1) for c in MID]
    jobs += [J("flat", act=0x1b, counted=0, cost=2, post=REACT, throw=REACT | UNCONS, burst=12 if T else 6, maxposts=1, queue=12)]
    return jobs


def c06(T):
    jobs = [J("flat", act=0x1f, counted=1, kinds=2, cost=0, queue=3, lateract=0)]
    jobs += [J("flat", act=0x1f, counted=1, cost=1, queue=3 if T else 2, lateract=0, post=ANY, postvalue=1, **lim(T, "flat", flat=4))]
    jobs += [J(c, act=0x1f, counted=0, cost=0, queue=2, lateract=0, **lim(T, c, orth=3, deep5=3)) for c in ("nest", "orth", "deep5")]
    jobs += [J(c, act=0x1f, counted=0, cost=1, queue=3, **lim(T, c, orth=6)) for c in ("flat", "nest", "orth")]
    jobs += [J(c, act=0x1f, counted=1, cost=1, queue=2, **lim(T, c, orth=5)) for c in ("orth", "nest")]
    jobs += [J(c, act=FWD | DEFER | TERM | TRANS, counted=0, cost=1, queue=2, depth=99 if T else 4) for c in ("orth3", "orthdeep", "hshallow", "hfull")]
    jobs += [J(c, act=0x1f, counted=0, kinds=3, cost=0, queue=3, lateract=0, **lim(T, c, decl2=5, decl3=5)) for c in DECL]
    jobs += [J(c, act=0x1f, counted=1, kinds=2, cost=1, queue=2, post=ANY, postkinds=2) for c in DECL]
    jobs += [J("flat", x=True, act=0x1f, counted=0, cost=2, queue=2, throw=ANY, exccost=9)]
    jobs += [J(c, x=True, act=0x1f, counted=0, cost=1, queue=2, throw=ANY, exccost=9, depth=3 if not T else 99) for c in ("nest", "orth")]
    jobs += [J("flat", act=0x1f, counted=0, cost=0, queue=2, window=2, lateract=0)]
    # long queues
    jobs += [J("flat", act=0x1f, counted=0, cost=1, queue=10)]
    jobs += [J(c, act=FWD | DEFER | TRANS, counted=0, cost=0, queue=12) for c in ("nest", "orth")]
    jobs += [J("decl", act=0x1f, counted=0, cost=1, post=ANY, burst=12, maxposts=1, queue=13)]
    if T: jobs += [J(c, act=0x1f, counted=0, kinds=2, cost=1, post=ANY, postkinds=2, burst=9, maxposts=1, queue=10, depth=3) for c in DECL]
    return jobs


def hist(names, T):
    jobs = [J(c, act=FWD | TRANS, counted=0, cost=0, window=1, budget=0 or 60) for c in names if c not in BIG]
    jobs += [J(c, act=FWD | TRANS | TERM, counted=0, cost=0, opclear=1) for c in names]
    jobs += [J(c, act=FWD | TRANS | TERM, counted=0, cost=1, clear=ANY, depth=99 if T else 4 if c in BIG else 5) for c in names]
    jobs += [J(c, act=FWD | TRANS | TERM, counted=0, cost=1, throw=ANY, depth=99 if T else 6) for c in names]
    jobs += [J(c, x=True, act=FWD | TRANS, excact=FWD | DISC | TRANS, counted=0, cost=1, throw=EXIT | ENTER | ACTION, exccost=9, depth=99 if T else 2 if c in BIG else 3) for c in names]
    return jobs


def c07(T): return hist(HIST_S, T)


def c08(T): return hist(HIST_D, T)


def c09(T):
    jobs = [J(c, act=0x1b, counted=0, cost=1, throw=ANY, **lim(T, c, orth4=4, hpair=6)) for c in CUST]
    jobs += [J(c, act=0x1f, counted=0, cost=2, throw=ANY, post=ANY, maxposts=1, queue=1, depth=99 if T else d) for c, d in (("flat", 99), ("nest", 2), ("orth", 2))]
    jobs += [J(c, act=0x1f, counted=0, kinds=2, cost=1, throw=ANY, queue=1) for c in DECL]
    jobs += [J(c, act=FWD | DEFER | TRANS, counted=0, cost=1, throw=ANY, queue=2, **lim(T, c, orth=6)) for c in ("flat", "nest", "orth")]
    jobs += [J(c, act=0x1b, counted=0, cost=1, throw=ANY, clear=ENTER | EXIT, depth=99 if T else 5) for c in ("hfull", "hshallow")]
    jobs += [J(c, x=2, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, depth=99 if T else 4) for c in ("flat", "nest")]
    if T: jobs += [J(c, act=0x1b, counted=0, cost=1, throw=ANY, window=1) for c in SMALL + ["orth3", "hfull"]]
    return jobs


def c10(T):
    jobs = [J("flat", x=True, act=0x1f, counted=0, cost=2, throw=ANY, exccost=1, queue=1)]
    jobs += [J("nest", x=True, act=0x1b, counted=0, cost=2 if T else 1, throw=ANY, exccost=1 if T else 9)]
    jobs += [J("orth", x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, depth=99 if T else 4)]
    jobs += [J(c, x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, depth=99 if T else d)
             for c, d in (("orth3", 2), ("orthdeep", 2), ("hshallow", 2), ("hdeep", 2), ("hfull", 2), ("hmix", 2), ("deep5", 2))]
    jobs += [J(c, x=True, act=0x1b, counted=0, cost=2, throw=ANY, exccost=1, depth=2) for c in ("nest",)]
    jobs += [J("declx", x=True, act=0x1f, counted=0, kinds=3, cost=1, throw=ANY, exccost=9, queue=1)]
    jobs += [J("declx", x=True, act=0x1b, counted=0, kinds=2, cost=2, throw=ANY, exccost=1, queue=1, depth=99 if T else 3)]
    jobs += [J(c, x=True, act=0x1f, counted=0, kinds=3, cost=1, throw=ANY, exccost=9, queue=1, depth=99 if T else 4) for c in ("decl", "decl2")]
    # a translator of the user's that takes only some exceptions
    jobs += [J("flat", x=2, act=0x1f, counted=0, cost=2, throw=ANY, exccost=1, queue=1), J("nest", x=2, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9),
             J("declx", x=2, act=0x1f, counted=0, kinds=3, cost=1, throw=ANY, exccost=9, queue=1)]
    jobs += [J(c, x=2, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, depth=99 if T else d) for c, d in (("orth", 3), ("hfull", 2), ("orthdeep", 2))]
    return jobs


def c11(T):
    f = ASAN
    jobs = [J(c, flags=f, alloc=True, act=0x1f, counted=1, cost=1, throw=ANY, queue=1, allocfaults=1, depth=99 if T else d)
            for c, d in (("flat", 99), ("nest", 3))]
    jobs += [J(c, flags=f, alloc=True, act=0x1b, counted=0, cost=0, queue=1, allocfaults=1, depth=99 if T else d)
             for c, d in (("nest", 99), ("orth", 4), ("orth3", 3), ("orthdeep", 3), ("hshallow", 3), ("hdeep", 3), ("hfull", 3), ("deep5", 99))]
    jobs += [J("flat", flags=f, alloc=True, act=0x1f, counted=1, cost=1, post=ANY, postvalue=1, queue=2, allocfaults=1, depth=99 if T else 4)]
    jobs += [J(c, flags=f, alloc=True, x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, depth=99 if T else d)
             for c, d in (("flat", 99), ("nest", 2), ("orth", 2))]
    jobs += [J("flat", flags=f, alloc=True, x=True, act=0x1f, counted=1, cost=1, allocfaults=1, queue=1)]
    jobs += [J("decl", flags=f, alloc=True, act=0x1f, counted=1, kinds=2, cost=0, queue=1, allocfaults=1, depth=99 if T else 5)]
    return jobs


def c12(T):
    jobs = [J("flat", act=0x1f, counted=0, cost=2, throw=ANY, post=ANY, maxposts=1, queue=1)]
    jobs += [J("flat", x=True, act=0x1f, counted=0, cost=2, throw=ANY, post=ANY, maxposts=1, queue=1, exccost=1, depth=99 if T else 4)]
    jobs += [J(c, act=0x1f, counted=0, cost=1, throw=ANY, post=ANY, maxposts=1, queue=1, **lim(T, c, orth=4, orth3=3, hshallow=3, hfull=3, deep5=3)) for c in ("nest", "orth", "orth3", "hshallow", "hfull", "deep5")]
    jobs += [J(c, x=True, act=0x1b, counted=0, cost=1, throw=ANY, post=ANY, maxposts=1, queue=1, exccost=9, depth=99 if T else d)
             for c, d in (("nest", 3), ("orth", 3), ("orthdeep", 2), ("hshallow", 2))]
    jobs += [J(c, x=True, act=0x1b, counted=0, cost=2, throw=ANY, exccost=1, depth=2) for c in ("nest",)]
    jobs += [J(c, act=0x1f, counted=0, kinds=2, cost=1, throw=ANY, post=UNCONS | REACT, queue=1) for c in DECL]
    jobs += [J("declx", x=True, act=0x1f, counted=0, kinds=2, cost=1, throw=ANY, exccost=9, queue=1)]
    return jobs


def c14(T):
    jobs = [J(c, relaxed=True, act=0x1b, counted=0, cost=0) for c in CUST]
    jobs += [J(c, relaxed=True, act=FWD | TRANS | TERM, counted=0, cost=0, window=1) for c in (MID if T else ("flat", "nest", "orth", "deep5", "orth3"))]
    jobs += [J(c, relaxed=True, act=0x1b, counted=0, cost=1, throw=ANY, depth=99 if T else 4) for c in CUST]
    jobs += [J(c, relaxed=True, act=0x1f, counted=0, cost=1, post=ANY, queue=1, depth=99 if T else d) for c, d in (("flat", 4), ("nest", 4), ("orth", 4), ("hshallow", 3))]
    jobs += [J(c, relaxed=True, x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, depth=99 if T else d)
             for c, d in (("flat", 99), ("nest", 99), ("orth", 3), ("orthdeep", 2), ("hshallow", 2), ("hdeep", 2), ("hfull", 2))]
    return jobs


def c15(T):
    jobs = [J(c, act=0x1b, counted=0, cost=0, queries=1, window=1 if c in SMALL else 0) for c in CUST + ["hdeep5", "roles"]]
    jobs += [J(c, act=0x1b, counted=0, cost=1, throw=ANY, queries=1, depth=99 if T else 4) for c in ("flat", "nest", "orth", "orth3", "orthdeep", "deep5")]
    jobs += [J(c, x=True, act=0x1b, counted=0, cost=1, throw=ANY, exccost=9, queries=1, depth=99 if T else d) for c, d in (("flat", 99), ("nest", 2), ("orth", 2))]
    jobs += [J(c, act=0x1f, counted=0, kinds=3, cost=0, queue=1, queries=1) for c in DECL + ["declrole"]]
    return jobs


OWN = {
    "C01": SEARCH | EVENT | OUTCOME | CRASH, "C02": SEQ | CONFIG | OUTCOME | CRASH, "C03": CONFIG | QUERY | CRASH,
    "C04": SEQ | CONFIG | SEARCH | EVENT | OUTCOME | CRASH, "C05": SEARCH | EVENT | OUTCOME | CRASH, "C06": SEARCH | EVENT | OUTCOME | CRASH,
    "C07": SEQ | CONFIG | OUTCOME | CRASH, "C08": SEQ | CONFIG | OUTCOME | CRASH, "C09": ALL & ~QUERY & ~TRIG | TRIG, "C10": ALL & ~QUERY,
    "C11": MEM | CRASH, "C12": TRIG | CRASH, "C14": ALL & ~QUERY, "C15": QUERY | CRASH,
}
JOBS = {k: globals()[k.lower()] for k in OWN}
KNOWN_DEVIATION = {"C14": "relaxed-second-stage-exit-throws"}


def heap(T):
    """C11: no memory but the allocator's, every sequence of operations on one chart"""
    runs = parts(8, "depth=7 budget=600") if T else parts(4, "depth=6 budget=100")
    return [Prog("heap" + n, ["heap.cpp"], ("-O1",) + f, (), runs) for n, f in (
        ("", ()), ("-translator", ("-DTRANSLATOR",)), ("-relaxed", ("-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT",)),
        ("-rtti", ("-DBOOST_STATECHART_USE_NATIVE_RTTI", "-DTRANSLATOR")))]


TAILS = ("C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11")
EXTRA = {"C11": heap}


def check(prop, tier):
    T = tier == "thorough"
    chk = Check(prop, tier)
    try:
        jobs = JOBS[prop](T)
        for j in jobs:
            if j.opts.get("cost", 0) > 0 and (T or prop in TAILS): j.opts.setdefault("tail", 1)
        build(chk, jobs)
        known = KNOWN_DEVIATION.get(prop, "")
        if known not in chk.findings.get(prop, {}): known = ""
        run_jobs(chk, jobs, OWN[prop], 800 if T else 100, known)
        if prop in EXTRA: run_programs(chk, EXTRA[prop](T))
        return chk.finish(
            "model_checking",
            "explicit-state search; transitions: distinct (state, operation, environment decisions), each executed on the library and compared with the model; traces_validated: different call sequences of one operation",
            "the listed charts and options: every operation sequence (initiate, terminate, process_event, clear history) up to the depth at which no new state appears (or depth=N), "
            "every combination of environment decisions within cost=N per operation, queues up to queue=N")
    finally:
        chk.close()
