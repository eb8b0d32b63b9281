"""Shared machinery of all checks: scratch directories, parallel builds from /repo's
current tree, jobs, known findings, verdicts and evidence."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = os.cpu_count() or 8


def boost_includes():
    """/repo's headers first, then the installed Boost for everything else"""
    return ["-I" + os.path.join(REPO, "include")]


class BuildError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.log = log


found = []  # replays of the violations reported so far


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.violations, self.known, self.notes = [], {}, []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, exhaustive=True, incomplete=[])
        self.extra, self.samples = {}, []
        self.findings = load_findings()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p): return os.path.join(self.dir, *p)

    # ---- building -------------------------------------------------------
    def compile_all(self, units, workers=CORES):
        """units: (source, object, flags); compiles in parallel"""
        def one(u):
            src, obj, flags = u
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            cc = "clang++" if "-verif-clang" in flags else "g++"
            flags = [f for f in flags if f != "-verif-clang"]
            r = run([cc, "-std=c++17", "-w"] + flags + boost_includes() + ["-I" + os.path.join(VERIF, "engine"), "-c", src, "-o", obj], timeout=600)
            if r.rc != 0: raise BuildError(src, r.out)
        with ThreadPoolExecutor(workers) as ex: list(ex.map(one, units))

    def link(self, objs, exe, flags=()):
        cc = "clang++" if "-verif-clang" in flags else "g++"
        r = run([cc] + objs + ["-o", exe] + [f for f in flags if f != "-verif-clang"], timeout=300)
        if r.rc != 0: raise BuildError(exe, r.out)

    # ---- verdicts -------------------------------------------------------
    def violation(self, what, replay_text, name=None):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (self.prop, len(self.violations) + 1) if not name else name)
        with open(p, "w") as f: f.write(replay_text)
        self.violations.append({"what": what[:2000], "replay": p})
        sys.stdout.write("# " + what[:3000].replace("\n", "\n# ") + "\n")
        sys.stdout.write("VIOLATION property=%s replay=%s\n" % (self.prop, p))
        found.append(p)
        sys.stdout.flush()

    def known_finding(self, ident, what):
        self.known.setdefault(ident, what)

    def incomplete(self, what):
        self.cov["exhaustive"] = False
        self.cov["incomplete"].append(what)

    def finish(self, level, rule, bounds, assumptions=()):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
            "coverage": dict(self.cov, samples=(self.samples or ["none"])[:8], rule=rule, bounds=bounds, details=self.extra),
            "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations), "violation_list": self.violations, "known_findings": sorted(self.known),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in sorted(self.known): print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, self.known[k]))
        print("%s %s: %d states, %d transitions, %d distinct traces validated, exhaustive=%s, %.1f s" % (
            self.prop, self.tier, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], self.cov["exhaustive"], time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


class Result:
    pass


def run(cmd, timeout=600, env=None, cwd=None, stdin=None):
    """runs a command in its own process group; rc -1000: timed out"""
    r = Result()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL if stdin is None else stdin,
                         env=env, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        r.rc = -1000
    r.out = out.decode("utf-8", "replace")
    return r


def load_findings():
    """known_findings.txt: 'known: property=<id> <ident> <description>' or 'fixed: property=<id> <commit> <what failed>'"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property="):
                w = l.split(None, 3)
                out.setdefault(w[1].split("=")[1], {})[w[2]] = w[3].strip()
    return out
