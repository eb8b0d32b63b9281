"""C23: every chart program of an enumerated family is classified by a model of the documented requirements and
compiled against /repo's current headers; the compiler's verdict has to agree with the model's."""
import copy, itertools, os, re, time
from concurrent.futures import ThreadPoolExecutor
from vlib import Check, BuildError, run, boost_includes, VERIF, CORES

HEADERS = """#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/mpl/list.hpp>
#include <stdexcept>
namespace sc = boost::statechart; namespace mpl = boost::mpl;
"""
SHALLOW, DEEP = 1, 2
FORMS = ("t", "ta", "r", "ra")


class State:
    def __init__(self, ctx, pos): self.ctx, self.pos, self.inits, self.hist, self.trans, self.clears, self.acts = ctx, pos, [], 0, [], [], []


class Chart:
    """states by number; ctx -1: the machine"""
    def __init__(self): self.s, self.init = [], 0
    def path(self, i):
        r, seen = [], set()
        while i >= 0:
            if i in seen: return None
            seen.add(i); r.append(i); i = self.s[i].ctx
        return r + [-1]
    def regions(self, i): return 1 if i < 0 else len(self.s[i].inits)


# ---- the model: what the documentation requires ---------------------------------
def classify(c, relaxed=False):
    """'valid', 'invalid' or 'unused' (only states no part of the program ever constructs break a rule)"""
    for i, x in enumerate(c.s):
        if x.pos >= c.regions(x.ctx): return "invalid", "S%d resides in a region that does not exist" % i
        if len(x.inits) > 1 and any(a >= 0 and c.s[a].hist & DEEP for a in c.path(i)[1:]): return "invalid", "S%d has two regions below deep history" % i
    seen, todo, bad = set(), [], []
    def entry(kind, t, where):
        ctx = c.s[t].ctx
        h = 0 if ctx < 0 else c.s[ctx].hist
        if kind == "sh" and not h & SHALLOW or kind == "dh" and not h & DEEP: bad.append(where + ": history of a context without it")
    def construct(t):
        if t in seen: return
        seen.add(t); todo.append(t)
        for r, (kind, u) in enumerate(c.s[t].inits):
            entry(kind, u, "initial states of S%d" % t)
            if c.s[u].ctx != t or c.s[u].pos != r: bad.append("S%d is not in region %d of S%d" % (u, r, t))
            construct(u)
    if c.s[c.init].ctx != -1: bad.append("initial state of the machine is not an outermost state")
    construct(c.init)
    while todo:
        i = todo.pop()
        for form, kind, t in c.s[i].trans:
            entry(kind, t, "transition S%d -> S%d" % (i, t))
            p, q = c.path(i), c.path(t)
            # the innermost common proper context; the state left and the state entered directly below it
            common = next(a for a in p[1:] if a in q[1:])
            out, into = p[p.index(common) - 1], q[q.index(common) - 1]
            if c.s[out].pos != c.s[into].pos: bad.append("transition S%d -> S%d between regions of %d" % (i, t, common))
            for a in q[:q.index(common)]:
                if a not in seen: seen.add(a); todo.append(a)
                for r, (k2, u) in enumerate(c.s[a].inits):
                    entry(k2, u, "initial states of S%d" % a)
                    if c.s[u].ctx != a or c.s[u].pos != r: bad.append("S%d is not in region %d of S%d" % (u, r, a))
                    construct(u)
        for form, t, x in c.s[i].acts:
            if form in ("in", "ctx"): ok = x in c.path(i)[form == "ctx":]
            else:
                p, q = c.path(i), c.path(t)
                common = next(a for a in p[1:] if a in q[1:])
                ok = x in p if relaxed else x in c.path(common) if common >= 0 else x < 0
                if c.s[p[p.index(common) - 1]].pos != c.s[q[q.index(common) - 1]].pos: bad.append("transition between regions")
                construct(t)
            if not ok: bad.append("S%d is no context of %s in S%d" % (x, form, i))
        for kind, t, r in c.s[i].clears:
            if not c.s[t].hist & (SHALLOW if kind == "shallow" else DEEP): bad.append("S%d clears undeclared history of S%d" % (i, t))
            if r >= c.regions(t): bad.append("S%d clears history of region %d of S%d" % (i, r, t))
    if bad: return "invalid", bad[0]
    # rules broken only in parts that are never constructed: not decided by the documentation
    for i, x in enumerate(c.s):
        if i in seen: continue
        for r, (kind, u) in enumerate(x.inits):
            if c.s[u].ctx != i or c.s[u].pos != r: return "unused", ""
        if x.trans or x.clears or x.acts or any(k != "s" for k, u in x.inits): return "unused", ""
    return "valid", ""


# ---- source text ----------------------------------------------------------------
def target(kind, t): return {"s": "S%d", "sh": "sc::shallow_history< S%d >", "dh": "sc::deep_history< S%d >"}[kind] % t


def source(c):
    paths = [c.path(i) for i in range(len(c.s))]
    if any(p is None for p in paths): return None
    o = ["template< int N > struct E : sc::event< E< N > > {};"]
    o += ["struct S%d;" % i for i in range(len(c.s))]
    o.append("struct M : sc::state_machine< M, S%d > { template< class T > void act( const T & ) {} };" % c.init)
    order = sorted(range(len(c.s)), key=lambda i: len(paths[i]))
    ev, late = 0, []
    for i in order:
        x = c.s[i]
        ctx = "M" if x.ctx < 0 else "S%d" % x.ctx
        if x.pos or x.ctx >= 0 and i % 2: ctx += "::orthogonal< %d >" % x.pos
        inner = ", mpl::list< %s >" % ", ".join(target(k, u) for k, u in x.inits)
        if not x.inits: inner = "" if not x.hist else ", mpl::list<>"
        elif len(x.inits) == 1 and x.inits[0][0] == "s" and i % 3: inner = ", S%d" % x.inits[0][1]
        hist = ["", ", sc::has_shallow_history", ", sc::has_deep_history", ", sc::has_full_history"][x.hist]
        base = "state" if i % 2 else "simple_state"
        l, body = [], ""
        for form, kind, t in x.trans:
            e = "E< %d >" % ev; ev += 1
            if form == "t": l.append("sc::transition< %s, %s >" % (e, target(kind, t)))
            elif form == "ta": l.append("sc::transition< %s, %s, M, &M::act< %s > >" % (e, target(kind, t), e))
            else:
                l.append("sc::custom_reaction< %s >" % e)
                body += " sc::result react( const %s & e );" % e
                late.append("sc::result S%d::react( const %s & e ) { return transit< %s >(%s); }" % (i, e, target(kind, t), "" if form == "r" else " &M::act< %s >, e " % e))
        for form, t, y in x.acts:
            e = "E< %d >" % ev; ev += 1
            y = "M" if y < 0 else "S%d" % y
            if form == "in": l.append("sc::in_state_reaction< %s, %s, &%s::act< %s > >" % (e, y, y, e))
            elif form == "tx": l.append("sc::transition< %s, S%d, %s, &%s::act< %s > >" % (e, t, y, y, e))
            else:
                l.append("sc::custom_reaction< %s >" % e)
                body += " sc::result react( const %s & e );" % e
                late.append("sc::result S%d::react( const %s & e ) { %s }" % (i, e, "return transit< S%d >( &%s::act< %s >, e );" % (t, y, e) if form == "rx" else "context< %s >().act( e ); return discard_event();" % y))
        for kind, t, r in x.clears:
            e = "E< %d >" % ev; ev += 1
            l.append("sc::custom_reaction< %s >" % e)
            body += " sc::result react( const %s & );" % e
            late.append("sc::result S%d::react( const %s & ) { clear_%s_history< S%d, %d >(); return discard_event(); }" % (i, e, kind, t, r))
        if base == "state": body += " S%d( my_context ctx ) : my_base( ctx ) {}" % i
        o.append("struct S%d : sc::%s< S%d, %s%s%s > { template< class T > void act( const T & ) {}%s%s };" % (i, base, i, ctx, inner, hist, " typedef mpl::list< %s > reactions;" % ", ".join(l) if l else "", body))
    o += late + ["void run() { M m; m.initiate(); m.process_event( E< 0 >() ); }"]
    return "\n".join(o) + "\n"


# ---- well-formed charts ---------------------------------------------------------
def shapes(n, depth):
    """all ordered forests of one region with n states: [ (regions of state), ... ]"""
    if n == 0: return
    for first in range(1, n + 1):
        for st in stateshapes(first, depth):
            if first == n: yield [st]
            else:
                for rest in shapes(n - first, depth): yield [st] + rest


def stateshapes(n, depth):
    if n == 1: yield []; return
    if depth == 0: return
    for r in shapes(n - 1, depth - 1): yield [r]
    for k in range(1, n - 1):
        for a in shapes(k, depth - 1):
            for b in shapes(n - 1 - k, depth - 1): yield [a, b]


def build(shape):
    c = Chart()
    def region(r, ctx, pos):
        ids = []
        for st in r:
            i = len(c.s); x = State(ctx, pos); c.s.append(x); ids.append(i)
            for p, sub in enumerate(st): x.inits.append(("s", region(sub, i, p)))
        for k, j in enumerate(ids[1:]): c.s[ids[k]].trans.append((FORMS[(j + k) % 4], "s", j))
        return ids[0]
    c.init = region(shape, -1, 0)
    return c


def bases(n, depth, hist=True):
    for shape in shapes(n, depth):
        c = build(shape)
        yield c
        for i, x in enumerate(c.s if hist else ()):
            if not x.inits: continue
            for h, kind in ((1, "sh"), (2, "dh"), (3, "sh"), (3, "dh")):
                for r in range(len(x.inits)):
                    d = copy.deepcopy(c)
                    d.s[i].hist = h; d.s[i].inits[r] = (kind, d.s[i].inits[r][1])
                    if classify(d)[0] == "valid": yield d


def structural(c, trans):
    """the single changes of history modes, regions and initial state lists only"""
    for i, x in enumerate(c.s):
        for h in range(1, 4): d = copy.deepcopy(c); d.s[i].hist = h; yield "history mode %d of S%d" % (h, i), d
        if x.pos < 2: d = copy.deepcopy(c); d.s[i].pos = 1 - x.pos; yield "S%d in region %d" % (i, 1 - x.pos), d
        if len(x.inits) == 2: d = copy.deepcopy(c); d.s[i].inits.reverse(); yield "initial states of S%d exchanged" % i, d
        for t in range(len(c.s) if trans else 0): d = copy.deepcopy(c); d.s[i].trans.append((FORMS[(i + t) % 4], "s", t)); yield "transition S%d -> S%d" % (i, t), d


def mutants(c):
    n = len(c.s)
    def m():
        return copy.deepcopy(c)
    for i in range(n):
        x = c.s[i]
        for p in range(0, 3):
            if p != x.pos: d = m(); d.s[i].pos = p; yield "S%d in region %d" % (i, p), d
        for q in range(-1, n):
            if q != x.ctx and q != i: d = m(); d.s[i].ctx = q; yield "S%d inside %d" % (i, q), d
        for h in range(4):
            if h != x.hist: d = m(); d.s[i].hist = h; yield "history mode %d of S%d" % (h, i), d
        for r in range(len(x.inits)):
            k, u = x.inits[r]
            d = m(); del d.s[i].inits[r]; yield "initial state %d of S%d removed" % (r, i), d
            for j in range(n):
                if j != i and j != u: d = m(); d.s[i].inits[r] = (k, j); yield "initial state %d of S%d: S%d" % (r, i, j), d
            for k2 in ("s", "sh", "dh"):
                if k2 != k: d = m(); d.s[i].inits[r] = (k2, u); yield "initial state %d of S%d: %s" % (r, i, k2), d
        if len(x.inits) == 2:
            d = m(); d.s[i].inits.reverse(); yield "initial states of S%d exchanged" % i, d
        if len(x.inits) < 3:
            for j in range(n):
                if j != i: d = m(); d.s[i].inits.append(("s", j)); yield "S%d is one more initial state of S%d" % (j, i), d
        for j in range(n):
            for kind in ("s", "sh", "dh"):
                for f in FORMS if kind == "s" else ("t", "ra"): d = m(); d.s[i].trans.append((f, kind, j)); yield "transition S%d -> %s S%d (%s)" % (i, kind, j, f), d
            if c.s[j].inits:
                for k in ("shallow", "deep"):
                    for r in range(len(c.s[j].inits) + 1): d = m(); d.s[i].clears.append((k, j, r)); yield "S%d clears %s history of region %d of S%d" % (i, k, r, j), d
    for i in range(n):
        for j in range(-1, n):
            if j != i: d = m(); d.s[i].acts.append(("ctx", 0, j)); yield "S%d uses context %d" % (i, j), d
            if j in c.path(i): d = m(); d.s[i].acts.append(("in", 0, j)); yield "in-state reaction of S%d in %d" % (i, j), d
            for t in range(n):
                for f in ("tx", "rx"):
                    if f == "tx" and j not in c.path(i): continue       # the type is not complete there in any case
                    d = m(); d.s[i].acts.append((f, t, j)); yield "transition S%d -> S%d with an action of %d (%s)" % (i, t, j, f), d
    for i in range(n):
        if i != c.init: d = m(); d.init = i; yield "the machine starts in S%d" % i, d


# ---- deciding -------------------------------------------------------------------

class Compiler:
    def __init__(self, chk, variant):
        self.chk, self.variant, self.flags = chk, variant, VARIANTS[variant][0]
        self.dir = chk.path("c-" + variant); os.makedirs(self.dir)
        h = os.path.join(self.dir, "h.hpp")
        with open(h, "w") as f: f.write(HEADERS)
        r = run(["g++", "-std=c++17", "-w"] + list(self.flags) + boost_includes() + ["-x", "c++-header", h, "-o", h + ".gch"])
        if r.rc: raise BuildError("headers", r.out)
        self.n = 0

    def compile(self, text, name):
        p = os.path.join(self.dir, name + ".cpp")
        with open(p, "w") as f: f.write('#include "h.hpp"\n' + text)
        r = run(["g++", "-std=c++17", "-w", "-fsyntax-only"] + list(self.flags) + boost_includes() + [p], timeout=400)
        os.unlink(p)
        if r.rc not in (0, 1) or r.rc == 1 and not re.search(r"\berror:", r.out): raise BuildError("compiler failed (rc %d)" % r.rc, r.out)
        return r

    def rejected(self, batch, name):
        """batch: (ident, text); the identifiers of the programs that do not compile. A program that no diagnostic names is compiled alone."""
        r = self.compile("\n".join("namespace N%d {\n%s}" % (k, t) for k, (i, t) in enumerate(batch)), name)
        if r.rc == 0: return {}
        hit, blk = {}, []
        for l in r.out.splitlines():
            blk.append(l)
            if ": error: " in l or ": fatal error: " in l:
                for k in re.findall(r"\bN(\d+)::", "\n".join(blk)): hit.setdefault(int(k), l)
                blk = []
        out = {}
        for k, (i, t) in enumerate(batch):
            if k in hit and len(batch) > 1: out[i] = hit[k]; continue
            q = self.compile("namespace N%d {\n%s}" % (k, t), "%s-%d" % (name, k))
            if q.rc: out[i] = next(l for l in q.out.splitlines() if "error:" in l)
        return out


def decide(comp, progs, want, size, pool, deadline, t0):
    """compiles all programs; returns those whose verdict differs from 'want' and the number decided"""
    bs = [progs[i:i + size] for i in range(0, len(progs), size)]
    def go(a):
        k, b = a
        if time.time() - t0 > deadline: return None
        rej = comp.rejected([(i, p[2]) for i, p in enumerate(b)], "b%s%d" % (want, k))
        if want == "valid":     # each rejection is confirmed alone
            rej = {i: m for i, m in rej.items() if comp.rejected([(0, b[i][2])], "v%d-%d" % (k, i))}
            return [(b[i], m) for i, m in rej.items()], len(b)
        return [(b[i], "accepted") for i in range(len(b)) if i not in rej], len(b)
    bad, done = [], 0
    for r in pool.map(go, enumerate(bs)):
        if r: bad += r[0]; done += r[1]
    return bad, done


def programs(sizes, depth, seen, relaxed=False, only=None):
    """only: a filter of the changes, 'structural' or 'structure' (without transitions)"""
    out = {"valid": [], "invalid": []}
    st = only in ("structural", "structure")
    for n in sizes:
        for c in bases(n, depth, not st):
            for nm, d in [("no change", c)] + list(structural(c, only == "structural") if st else mutants(c)):
                if only and not st and not only(nm): continue
                s = source(d)
                if s is None or s in seen: continue
                seen.add(s)
                k, why = classify(d, relaxed)
                if k in out: out[k].append((nm, why, s))
    return out


RELAXED = ("-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT",)
NATIVE = ("-DBOOST_STATECHART_USE_NATIVE_RTTI",)
VARIANTS = {"normal": ((), {"threads", "debug", "builtin"}), "native": (NATIVE, {"threads", "debug", "native"}), "relaxed": (RELAXED, {"threads", "debug", "builtin"}),
            "both": (RELAXED + NATIVE, {"threads", "debug", "native"}), "nothreads": (("-DBOOST_DISABLE_THREADS",), {"nothreads", "debug", "builtin"}),
            "release": (("-DNDEBUG",), {"threads", "builtin"})}


TWO_UNITS = """
struct E : sc::event< E > { int v; E() : v( 0 ) {} }; struct A; struct B;
struct M : sc::asynchronous_state_machine< M, A, sc::fifo_scheduler<>, std::allocator< sc::none >, sc::exception_translator<> > { M( my_context c ) : my_base( c ) {} };
struct A : sc::state< A, M, B, sc::has_full_history > { A( my_context c ) : my_base( c ) {}
  typedef mpl::list< sc::transition< E, sc::deep_history< B > >, sc::in_state_reaction< sc::exception_thrown > > reactions; };
struct B : sc::simple_state< B, A > { typedef mpl::list< sc::deferral< E >, sc::custom_reaction< sc::event_base > > reactions;
  sc::result react( const sc::event_base & ) { return transit< A >(); } };
"""


# The documented build modes without exception handling or run-time type information (doc/configuration.html).
MODES = {"no exceptions": ("-fno-exceptions",), "no rtti": ("-fno-rtti", "-DNDEBUG"), "neither": ("-fno-exceptions", "-fno-rtti", "-DNDEBUG"),
         "neither, relaxed": ("-fno-exceptions", "-fno-rtti", "-DNDEBUG", "-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT")}
MODE_USE = """
#include <cstdlib>
#include <exception>
#ifdef BOOST_NO_EXCEPTIONS
namespace boost { void throw_exception( const std::exception & ) { std::abort(); }
void throw_exception( const std::exception &, const boost::source_location & ) { std::abort(); } }
#endif
namespace {
struct E : sc::event< E > {}; struct D : sc::event< D > {}; struct H : sc::event< H > {}; struct Q : sc::event< Q > {}; struct X : sc::event< X > {}; struct U : sc::event< U > {};
int actions = 0, unconsumed = 0;
struct A; struct B; struct C; struct R0; struct R1; struct R00; struct R01; struct R000; struct R001;
struct M : sc::state_machine< M, A > { void act( const E & ) { ++actions; } void unconsumed_event( const sc::event_base & ) { ++unconsumed; } };
struct A : sc::simple_state< A, M, mpl::list< R0, R1 >, sc::has_full_history > {
  typedef mpl::list< sc::transition< E, B, M, &M::act >, sc::termination< Q > > reactions; };
struct R0 : sc::simple_state< R0, A::orthogonal< 0 >, R00, sc::has_full_history > {};
struct R00 : sc::simple_state< R00, R0, R000, sc::has_full_history > { typedef sc::transition< D, R01 > reactions; };
struct R01 : sc::simple_state< R01, R0, R001, sc::has_full_history > { typedef sc::transition< D, R00 > reactions; };
struct R000 : sc::simple_state< R000, R00 > {};
struct R001 : sc::simple_state< R001, R01 > {};
struct R1 : sc::simple_state< R1, A::orthogonal< 1 > > { typedef mpl::list< sc::custom_reaction< X > > reactions;
  sc::result react( const X & ) { post_event( U() ); return forward_event(); } };
struct B : sc::state< B, M > { B( my_context c ) : my_base( c ), n( 0 ) {}
  int n; void add( const X & ) { n += 10; }
  typedef mpl::list< sc::deferral< D >, sc::transition< H, sc::deep_history< R000 > >, sc::in_state_reaction< X, B, &B::add >, sc::custom_reaction< E > > reactions;
  sc::result react( const E & ) { return terminate(); } };
template< class S, class T > bool in( const T & m ) { return m.template state_downcast< const S * >() != 0; }
struct P; struct PI; typedef sc::fifo_scheduler<> S;
struct P : sc::asynchronous_state_machine< P, PI, S > { P( my_context c, int * p ) : my_base( c ), p( p ) {} int * p; };
struct PI : sc::simple_state< PI, P > { typedef sc::custom_reaction< E > reactions; sc::result react( const E & ) { ++*context< P >().p; return discard_event(); } };
}
int main() {
  M m; m.initiate();
  if ( !in< A >( m ) || !in< R000 >( m ) || !in< R1 >( m ) || in< B >( m ) ) return 1;
  m.process_event( D() ); if ( !in< R001 >( m ) || in< R00 >( m ) ) return 2;
  CAST
  m.process_event( X() ); if ( unconsumed != 2 ) return 3;
  m.process_event( E() ); if ( !in< B >( m ) || actions != 1 ) return 4;
  m.process_event( D() ); m.process_event( X() ); if ( m.state_downcast< const B & >().n != 10 || unconsumed != 2 ) return 5;
  int k = 0; for ( M::state_iterator i = m.state_begin(); i != m.state_end(); ++i ) ++k; if ( k != 1 ) return 6;
  M::state_iterator i = m.state_begin(); if ( i->dynamic_type() != B::static_type() || i->outer_state_ptr() ) return 7;
  EXTRA
  m.process_event( E() ); if ( !m.terminated() ) return 8;
  m.initiate(); if ( !in< R000 >( m ) ) return 9;
  m.process_event( E() ); m.process_event( D() ); m.process_event( H() );
  if ( !in< A >( m ) || !in< R1 >( m ) || !in< R001 >( m ) ) return 10; // the deferred D is due in R000
  m.process_event( Q() ); if ( !m.terminated() ) return 11;
  S s( false ); int n = 0; S::processor_handle h = s.create_processor< P >( &n );
  s.initiate_processor( h ); s.queue_event( h, boost::intrusive_ptr< const sc::event_base >( new E() ) ); s.queue_event( h, boost::intrusive_ptr< const sc::event_base >( new E() ) ); s( 0 );
  if ( n != 2 ) return 12;
  s.destroy_processor( h ); s.terminate(); s( 0 ); if ( !s.terminated() ) return 13;
  return 0;
}
"""


def headers(chk, T, pool):
    """every documented header is enough by itself, in any order with the others, in any number of translation units"""
    inc = os.path.join(boost_includes()[0][2:], "boost", "statechart")
    names = sorted(h for h in os.listdir(inc) if h.endswith(".hpp"))
    jobs = [(v, std, (h,)) for v in VARIANTS for std in (("gnu++11", "c++17", "c++20", "c++23") if T or v == "normal" else ("c++17",)) for h in names]
    if T: jobs += [(v, "c++17", (a, b)) for v in ("normal", "nothreads") for a in names for b in names]
    d = chk.path("headers"); os.makedirs(d)

    def one(j):
        v, std, hs = j
        p = os.path.join(d, "-".join((v, std) + hs) + ".cpp")
        with open(p, "w") as f: f.write("".join("#include <boost/statechart/%s>\n" % h for h in hs) * 2 + "int main() {}\n")
        r = run(["g++", "-std=" + std, "-w", "-fsyntax-only"] + list(VARIANTS[v][0]) + boost_includes() + [p], timeout=200)
        os.unlink(p)
        if r.rc not in (0, 1): raise BuildError("compiler failed (rc %d)" % r.rc, r.out)
        return r

    def two(vc):
        v, cxx = vc
        objs = []
        for k, text in enumerate(("namespace {\n%s}\nvoid use() { sc::fifo_scheduler<> s; s.create_processor< M >(); s(); }\n" % TWO_UNITS,
                                  "namespace {\n%s}\nvoid use(); int main() { sc::fifo_scheduler<> s; s.create_processor< M >(); s(); use(); }\n" % TWO_UNITS)):
            p = os.path.join(d, "%s-%s-%d.cpp" % (v, cxx, k)); objs.append(p + ".o")
            with open(p, "w") as f: f.write(HEADERS + text)
            r = run([cxx, "-std=c++17", "-w", "-c", "-o", p + ".o"] + list(VARIANTS[v][0]) + boost_includes() + [p], timeout=300)
            if r.rc: return r
        return run([cxx, "-o", os.path.join(d, v + cxx)] + objs + ["-lboost_thread", "-lpthread"], timeout=200)

    mjobs = [(m, cxx, h) for m in MODES for cxx in ("g++", "clang++") for h in names if not (h == "exception_translator.hpp" and m != "no rtti")] + [
        (m, cxx, k) for m in MODES for cxx in ("g++", "clang++") for k in ("use", "cast") + (() if m == "no exceptions" else ("badcast",))]

    def mode(j):
        """-> what is wrong, or None"""
        m, cxx, h = j
        p = os.path.join(d, "-".join((m, cxx, h)).replace(" ", "_").replace(",", "") + ".cpp")
        flags = [cxx, "-std=c++17", "-w"] + list(MODES[m]) + boost_includes()
        if h.endswith(".hpp"):
            with open(p, "w") as f: f.write("#include <boost/statechart/%s>\nint main() {}\n" % h)
            r = run(flags + ["-fsyntax-only", p], timeout=200); os.unlink(p)
            if r.rc not in (0, 1): raise BuildError("compiler failed (rc %d)" % r.rc, r.out)
            return ("a program that includes only <boost/statechart/%s> does not compile" % h, r.out) if r.rc else None
        deep = "" if h != "cast" or m != "no exceptions" else (
            "if ( &m.state_cast< const R1 & >() != m.state_downcast< const R1 * >() || &m.state_cast< const R001 & >() != m.state_cast< const R001 * >() || m.state_cast< const R000 * >() || &m.state_cast< const A & >() != m.state_cast< const A * >() ) return 21;")
        hdrs = "".join(l + "\n" for l in HEADERS.splitlines() if m == "no rtti" or "exception_translator" not in l)
        extra = "" if h == "use" else "if ( !m.state_cast< const B * >() || m.state_cast< const A * >() || m.state_cast< const B & >().n != 10 ) return 20;"
        if h == "cast" and m != "no exceptions": extra = ""   # state_cast needs RTTI
        with open(p, "w") as f: f.write(hdrs + MODE_USE.replace("CAST", deep).replace("EXTRA", extra))
        if h == "badcast":
            r = run(flags + ["-fsyntax-only", p], timeout=200)
            if r.rc not in (0, 1): raise BuildError("compiler failed (rc %d)" % r.rc, r.out)
            return None if r.rc else ("state_cast compiles without RTTI", "")
        x = p + ".x"
        r = run(flags + ["-o", x, p, "-lboost_thread", "-lpthread"], timeout=300)
        if r.rc not in (0, 1): raise BuildError("compiler failed (rc %d)" % r.rc, r.out)
        if r.rc: return ("a well-formed program does not compile", r.out)
        r = run([x], timeout=60)
        return ("a program does not behave as documented: its step %d" % r.rc, "see MODE_USE in lib/rejects.py\n" + r.out) if r.rc else None
    bad = []
    for j, r in zip(mjobs, pool.map(mode, mjobs)):
        if r: bad.append(("%s, %s: %s" % (j[0], j[1], r[0]), r[1]))
    for j, r in zip(jobs, pool.map(one, jobs)):
        if r.rc: bad.append(("%s, -std=%s: a program that includes only <%s> does not compile" % (j[0], j[1], "> and <".join("boost/statechart/" + h for h in j[2])), r.out))
    units = [(v, cxx) for v in VARIANTS for cxx in ("g++", "clang++")]
    for v, r in zip(units, pool.map(two, units)):
        if r.rc: bad.append(("%s, %s: a program of two translation units that include all headers does not link" % v, r.out))
    for what, out in bad[:5]: chk.violation(what + ": " + next((l for l in out.splitlines() if "error" in l or "multiple" in l), ""), "// %s\n%s" % (what, "\n".join("// " + l for l in out.splitlines()[:60])))
    n = len(jobs) + len(units) + len(mjobs)
    chk.cov["states"] += n; chk.cov["transitions"] += n; chk.cov["traces_validated_against_impl"] += n
    return {"variant": "all", "family": "headers alone" + (", ordered pairs" if T else "") + ", two translation units, without exceptions or RTTI", "valid": n, "of": n}


def c23(tier):
    import uses
    T = tier == "thorough"
    chk = Check("C23", tier)
    table, accepted, deadline = [], 0, 820 if T else 300
    act = lambda nm: "with an action" in nm or "context" in nm or "in-state" in nm or nm == "no change"
    plans = [("normal", (1, 2, 3), None), ("relaxed", (1, 2), None), ("relaxed", (3,), None if T else act), ("native", (1, 2, 3) if T else (1, 2), None),
             ("both", (1, 2, 3) if T else (1, 2), None), ("normal", (4,), "structural"), ("normal", (5,), "structural" if T else "structure")]
    if T: plans += [("nothreads", (1, 2), None), ("release", (1, 2, 3), None), ("normal", (4,), None), ("normal", (6,), "structural")]
    def report(kind, variant, name, why, text, said):
        if len(chk.violations) >= 5: return
        what = "%s: an ill-formed program compiles: %s (%s)" % (variant, name, why) if kind == "invalid" else "%s: a well-formed program does not compile: %s: %s" % (variant, name, said)
        chk.violation(what, "// %s\n// compile with: g++ -std=c++17 -fsyntax-only -I/repo/include %s\n%s%s" % (what, " ".join(VARIANTS[variant][0]), HEADERS, text))
    try:
        comps = {}
        with ThreadPoolExecutor(CORES) as pool:
            try:
                for v, c in zip(VARIANTS, pool.map(lambda v: Compiler(chk, v), VARIANTS)): comps[v] = c
            except BuildError as e:
                chk.violation("the library's headers do not compile", e.log[-20000:]); return chk.finish("model_checking", "-", "-")
            table.append(headers(chk, T, pool))
            for v in VARIANTS:
                if not T and v in ("relaxed", "both"): continue
                P, n = list(uses.uses(VARIANTS[v][1])), {}
                for want in ("valid", "invalid"):
                    bad, n[want] = decide(comps[v], [(name, "", t) for kind, name, t in P if kind == want], want, 20, pool, deadline, chk.t0)
                    for (name, _, text), said in bad: report(want, v, "interface use: " + name, "one alternative", text, said)
                table.append({"variant": v, "family": "interface uses", "well_formed": n["valid"], "ill_formed": n["invalid"]})
            for v, sizes, only in plans:
                if len(chk.violations) >= 5: break
                P = programs(sizes, 3, set(), "relaxed" in v or v == "both", only)
                for want, size in (("valid", 50), ("invalid", 40)):
                    bad, done = decide(comps[v], P[want], want, size, pool, deadline, chk.t0)
                    for (nm, why, text), said in bad: report(want, v, nm, why, text, said)
                    if done < len(P[want]): chk.incomplete("%s, %s states: %d of %d %s programs before the deadline" % (v, sizes, done, len(P[want]), want))
                    table.append({"variant": v, "family": "charts of %s states" % "/".join(map(str, sizes)), want: done, "of": len(P[want]), "at_s": round(time.time() - chk.t0)})
                    chk.cov["states"] += done; chk.cov["transitions"] += done; chk.cov["traces_validated_against_impl"] += done
                if len(chk.samples) < 6 and P["invalid"]: chk.samples.append("%s: %s" % P["invalid"][len(P["invalid"]) // 2][:2])
        for t in table:
            if "well_formed" in t:
                k = t["well_formed"] + t["ill_formed"]; chk.cov["states"] += k; chk.cov["transitions"] += k; chk.cov["traces_validated_against_impl"] += k
        chk.extra["programs"] = table
        return chk.finish("model_checking",
            "states: programs of the enumerated family; transitions: the single changes that lead to them; traces_validated: programs whose verdict by the compiler was compared with the model's",
            "every chart of the listed number of states (up to 2 regions per state, 3 levels, history placed at every composite state), and every single change of it: region, context, history mode, initial state lists, added transitions, actions, in-state reactions, context uses and history clearing between any two states, machine initial state; plus a table of interface uses with one wrong alternative at a time; every header by itself, programs of two translation units, and the build modes without exceptions or RTTI",
            ["g++ 13 -fsyntax-only instantiates what a complete compilation would", "programs whose only fault lies in states that are never constructed are not judged"])
    finally: chk.close()


CHECKS = {"C23": c23}
