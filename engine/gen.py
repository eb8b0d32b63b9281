#!/usr/bin/env python3
"""Generates C++ charts (for the real library) and their description tables (for the model)
from compact chart specifications. See charts.py for the charts."""

HIST = {"none": "sc::has_no_history", "shallow": "sc::has_shallow_history",
        "deep": "sc::has_deep_history", "full": "sc::has_full_history"}


class State:
    def __init__(self, name, parent=None, region=0, inits=(), hist="none", full=False, iface=False,
                 reactions=None, role=False):
        self.name, self.parent, self.region = name, parent, region
        self.inits = [self.tgt(i) for i in inits]
        self.hist, self.full, self.iface = hist, full, iface
        self.role = role                    # has a base class of its own that other states may name as action context
        self.reactions = reactions          # None: one custom reaction for every event
        self.actions = None

    @staticmethod
    def tgt(x):
        if ":" in x:
            k, s = x.split(":")
            return ({"sh": 1, "dh": 2}[k], s)
        return (0, x)


class Chart:
    def __init__(self, name, init, states, translator=False, relaxed=False, kinds=1, alloc=False,
                 targets=None, skip=None, actstyle="mix", native=False, actonly=None, mrole=False):
        self.name, self.init, self.states = name, init, states
        self.translator, self.relaxed, self.kinds, self.alloc = translator, relaxed, kinds, alloc
        self.by = {s.name: s for s in states}
        self.idx = {s.name: i for i, s in enumerate(states)}
        self.children = {}
        for s in states:
            self.children.setdefault(s.parent, []).append(s)
        self.actstyle, self.mrole = actstyle, mrole
        self.actonly = actonly
        self.skip = skip or (lambda s, d, actx: False)
        self.extra_targets = targets
        self.clears = []
        for s in states:
            for r in range(len(s.inits)):
                if s.hist in ("shallow", "full"): self.clears.append((s.name, r, False))
                if s.hist in ("deep", "full"): self.clears.append((s.name, r, True))
        for s in states:
            if s.actions is None: s.actions = self.menu(s)

    # ---- structure ----
    def contexts(self, s):
        out = []
        p = self.by[s].parent
        while p is not None:
            out.append(p)
            p = self.by[p].parent
        return out + [None]

    def common(self, s, d):
        cd = self.contexts(d)
        for c in self.contexts(s):
            if c in cd: return c

    def valid(self, s, d):
        """is a transition s -> d legal (no change of orthogonal region)?"""
        c = self.common(s, d)
        cs, cd = [s] + self.contexts(s), [d] + self.contexts(d)
        return self.by[cs[cs.index(c) - 1]].region == self.by[cd[cd.index(c) - 1]].region

    def default_of(self, h, r):
        return self.by[h].inits[r][1]

    def all_targets(self):
        t = [(0, s.name) for s in self.states]
        for (h, r, deep) in self.clears:
            t.append((2 if deep else 1, self.default_of(h, r)))
        return t

    def menu(self, s):
        acts = [("FORWARD",), ("DISCARD",), ("DEFER",), ("TERMINATE",)]
        n = self.idx[s.name]
        for j, (k, d) in enumerate(self.all_targets()):
            if not self.valid(s.name, d): continue
            c = self.common(s.name, d)
            if self.relaxed:
                ctxs = [s.name] + self.contexts(s.name)
                if self.actstyle == "all":
                    opts = ctxs
                else:
                    opts = [ctxs[(n + j) % len(ctxs)]]
                for a in opts:
                    if not self.skip(s.name, (k, d), a): acts.append(("TRANSIT", (k, d), a if a else "M"))
            else:
                style = (n + j) % 3
                a = "-" if style == 0 else (c or "M") if style == 1 else "M"
                if self.actstyle == "none": a = "-"
                if a != "-" and self.actstyle == "roles":
                    outer = [x for x in self.contexts(c or "M") if c and x and self.by[x].role] if c else []
                    if c and self.by[c].role: outer.insert(0, c)
                    if self.mrole: outer.append("M")
                    if outer: a = "r:" + outer[j % len(outer)]
                if not self.skip(s.name, (k, d), a): acts.append(("TRANSIT", (k, d), a))
        return acts

    # ---- C++ ----
    def cpp_target(self, t):
        k, s = t
        return (s, "sc::shallow_history< %s >" % s, "sc::deep_history< %s >" % s)[k]

    def cpp(self):
        o = []
        w = o.append
        w('#include "env.hpp"')
        w("using namespace vf;")
        w("namespace chart_%s {" % self.name)
        for s in self.states: w("struct %s;" % s.name)
        alloc = "CountingAlloc< sc::none >" if self.alloc else "std::allocator< sc::none >"
        trans = "PickyTranslator" if self.translator == 2 else "sc::exception_translator<>" if self.translator else "sc::null_exception_translator"
        w("struct Iface { virtual ~Iface() {} };")
        for n in [s.name for s in self.states if s.role] + (["M"] if self.mrole else []):
            w("struct Role%s { virtual ~Role%s() {} virtual void doact( int, const sc::event_base & ) = 0;" % (n, n))
            w("  template< class E > void act( const E & e ) { doact( K_ACTION, e ); }")
            w("  template< class E > void instate( const E & e ) { doact( K_INSTATE, e ); } };")
        w("struct Chart;")
        w("struct M : %ssc::state_machine< M, %s, %s, %s > {" % ("RoleM, " if self.mrole else "", self.init, alloc, trans))
        if self.mrole:
            w("  void doact( int k, const sc::event_base & e );")
        w("  enum { ID = -1 };")
        w("  typedef sc::state_machine< M, %s, %s, %s > machine_base;" % (self.init, alloc, trans))
        w("  using machine_base::post_event;")
        w("  void unconsumed_event( const sc::event_base & e );")
        w("  template< class E > void act( const E & e );")
        w("  template< class E > void instate( const E & e );")
        w("};")
        w("struct Chart { template< class X > static void clearHist( X & x, int i ); };")
        w("inline void M::unconsumed_event( const sc::event_base & e ) { unconsumed< Chart >( *this, e ); }")
        if self.mrole: w("inline void M::doact( int k, const sc::event_base & e ) { acted< Chart >( *this, k, e ); }")
        w("template< class E > void M::act( const E & e ) { acted< Chart >( *this, K_ACTION, e ); }")
        w("template< class E > void M::instate( const E & e ) { acted< Chart >( *this, K_INSTATE, e ); }")
        evs = ["Ev< %d >" % k for k in range(self.kinds)]
        for i, s in enumerate(self.states):
            ctx = s.parent or "M"
            par = self.by[s.parent] if s.parent else None
            if par and (s.region > 0): ctx = "%s::orthogonal< %d >" % (ctx, s.region)
            base = "sc::state" if s.full else "sc::simple_state"
            inner = "mpl::list< %s >" % ", ".join(self.cpp_target(t) for t in s.inits)
            if len(s.inits) == 1 and s.inits[0][0] == 0: inner = s.inits[0][1]
            args = [s.name, ctx]
            if s.inits or s.hist != "none": args.append(inner)
            if s.hist != "none": args.append(HIST[s.hist])
            ifc = ", Iface" if s.iface else ""
            w("struct %s : %s< %s >%s {" % (s.name, base, ", ".join(args), ifc + (", Role" + s.name if s.role else "")))
            if s.role: w("  void doact( int k, const sc::event_base & e ) { acted< Chart >( *this, k, e ); }")
            w("  enum { ID = %d };" % i)
            if s.full:
                w("  %s( my_context ctx ) : my_base( ctx ) { enteredFull< Chart >( *this ); }" % s.name)
            else:
                w("  %s() { entered( ID, this ); }" % s.name)
            w("  ~%s() { dtor( *this ); }" % s.name)
            w("  void exit() { exited< Chart >( *this ); }")
            if s.reactions is None:
                w("  sc::result react( const sc::event_base & e );")
            else:
                for r in s.reactions:
                    if r[0] == "CUSTOM": w("  sc::result react( const %s & e );" % self.cpp_ev(r[1]))
            w("  template< class E > void act( const E & e ) { acted< Chart >( *this, K_ACTION, e ); }")
            w("  template< class E > void instate( const E & e ) { acted< Chart >( *this, K_INSTATE, e ); }")
            if s.reactions is None:
                w("  typedef sc::custom_reaction< sc::event_base > reactions;")
            elif len(s.reactions) == 1:
                w("  typedef %s reactions;" % self.cpp_decl(s, s.reactions[0]))
            elif s.reactions or s.full:
                w("  typedef mpl::list< %s > reactions;" % ", ".join(self.cpp_decl(s, r) for r in s.reactions))
            w("};")
        w("template< class X > void Chart::clearHist( X & x, int i ) { switch ( i ) {")
        for i, (h, r, deep) in enumerate(self.clears):
            w("  case %d: x.template clear_%s_history< %s, %d >(); break;" % (i, "deep" if deep else "shallow", h, r))
        w("  default: (void)x; std::abort(); } }")
        for s in self.states:
            if s.reactions is None:
                self.cpp_react(w, s, "sc::event_base")
            else:
                for r in s.reactions:
                    if r[0] == "CUSTOM": self.cpp_react(w, s, self.cpp_ev(r[1]))
        # ---- interface ----
        w("""
template< class T, class P > std::string outerIs( const T * p, const void * parent )
{
  const typename M::state_base_type * o = p->outer_state_ptr();
  const typename M::state_base_type * e = static_cast< const P * >( parent );
  if ( o != e || o == 0 ) return "outer_state_ptr() wrong";
  if ( &static_cast< const T * >( p )->template context< P >() != parent ) return "context<outer>() wrong";
  return "";
}
template< class T > std::string queryOne( const M & m, const void * live )
{
  const T * p = m.template state_cast< const T * >();
  if ( p != live ) return "state_cast<const T *>";
  p = m.template state_downcast< const T * >();
  if ( p != live ) return "state_downcast<const T *>";
  if ( live == 0 && !g.checkRefs ) return "";            // (throwing is slow: only between operations)
  bool threw = false;
  try { if ( &m.template state_cast< const T & >() != live ) return "state_cast<const T &>"; }
  catch ( const std::bad_cast & ) { threw = true; }
  if ( threw != ( live == 0 ) ) return "state_cast<const T &> bad_cast";
  threw = false;
  try { if ( &m.template state_downcast< const T & >() != live ) return "state_downcast<const T &>"; }
  catch ( const std::bad_cast & ) { threw = true; }
  if ( threw != ( live == 0 ) ) return "state_downcast<const T &> bad_cast";
  if ( live )
  {
    const T * t = static_cast< const T * >( live );
    if ( &t->outermost_context() != &m ) return "outermost_context()";
    if ( &t->template context< M >() != &m ) return "context<machine>()";
    if ( &const_cast< T * >( t )->template context< T >() != t ) return "context<self>()";
    if ( t->dynamic_type() != T::static_type() ) return "dynamic_type()";
    if ( t->template state_cast< const T * >() != t ) return "state_cast from a state";
    if ( t->template state_downcast< const T * >() != t ) return "state_downcast from a state";
    std::vector<const void *> a, b;
    for ( typename M::state_iterator i = m.state_begin(); i != m.state_end(); ++i ) a.push_back( &*i );
    typename T::state_iterator before = t->state_begin();
    for ( typename T::state_iterator i = t->state_begin(); i != t->state_end(); )
    {
      typename T::state_iterator here = i, old = i++;
      if ( !( old == here ) || old != here || old == i || !( old != i ) ) return "state iterator: value of it++, or comparison";
      typename T::state_iterator & r = ++here;
      if ( &r != &here || here != i || !( here == i ) ) return "state iterator: ++it";
      before = old;
      if ( before != old ) return "state iterator: assignment";
      b.push_back( before.operator->() );
      if ( &*old != b.back() ) return "state iterator: *it and it-> differ";
    }
    if ( a != b ) return "state iterators of machine and state differ";
  }
  return "";
}
struct Impl : IMachine {
  M m;
  void initiate() { m.initiate(); }
  void terminate() { m.terminate(); }
  struct Proc { M & m;
    void operator()( const boost::intrusive_ptr< const sc::event_base > & p ) { m.process_event( *p ); }
    void operator()( const sc::event_base & e ) { m.process_event( e ); } };
  void process( int kind, int uid, bool counted ) { Proc p = { m }; withEvent( kind, uid, counted, p ); }
  void clear( int i ) { Chart::clearHist( m, i ); }
  bool terminated() const { return m.terminated(); }
  const sc::event_base * trig() const { return m.triggering_event(); }
  void leaves( std::vector<const void *> & out ) const
  {
    for ( M::state_iterator i = m.state_begin(); i != m.state_end(); ++i )
    {
      const M::state_base_type * p = &*i;
      const void * v = 0;""")
        for s in self.states:
            if not s.inits:
                w("      if ( p->dynamic_type() == %s::static_type() ) v = static_cast< const %s * >( p );" % (s.name, s.name))
        w("      out.push_back( v );\n    }\n  }")
        w("  std::string queries( const std::vector<const void *> & live ) const\n  {\n    std::string r;")
        for i, s in enumerate(self.states):
            w('    r = queryOne< %s >( m, live[ %d ] ); if ( !r.empty() ) return r + " for %s";' % (s.name, i, s.name))
            if s.parent:
                w('    if ( live[ %d ] ) { r = outerIs< %s, %s >( static_cast< const %s * >( live[ %d ] ), live[ %d ] ); if ( !r.empty() ) return r + " for %s"; }'
                  % (i, s.name, s.parent, s.name, i, self.idx[s.parent], s.name))
                for a in self.contexts(s.name)[1:-1]:
                    w('    if ( live[ %d ] && &static_cast< const %s * >( live[ %d ] )->context< %s >() != live[ %d ] ) return "context<%s>() of %s";'
                      % (i, s.name, i, a, self.idx[a], a, s.name))
            else:
                w('    if ( live[ %d ] && static_cast< const %s * >( live[ %d ] )->outer_state_ptr() != 0 ) return "outer_state_ptr() of outermost %s";'
                  % (i, s.name, i, s.name))
        for i, s in enumerate(self.states):
            for a in [s.name] + self.contexts(s.name)[:-1]:
                if self.by[a].role:
                    for const in ("const ", "") if a != s.name else ("",):
                        w('    if ( live[ %d ] && &const_cast< %s%s * >( static_cast< const %s * >( live[ %d ] ) )->context< Role%s >() != static_cast< const Role%s * >( static_cast< const %s * >( live[ %d ] ) ) ) return "context<base of %s>() of %s";'
                          % (i, const, s.name, s.name, i, a, a, a, self.idx[a], a, s.name))
            if self.mrole:
                w('    if ( live[ %d ] && &static_cast< const %s * >( live[ %d ] )->context< RoleM >() != static_cast< const RoleM * >( &m ) ) return "context<base of machine>() of %s";' % (i, s.name, i, s.name))
        ifs = [i for i, s in enumerate(self.states) if s.iface]
        if ifs:
            w("    { bool any = false, hit = false; const Iface * f = m.state_cast< const Iface * >();")
            for i in ifs:
                w("      if ( live[ %d ] ) { any = true; hit = hit || f == static_cast< const Iface * >( static_cast< const %s * >( live[ %d ] ) ); }" % (i, self.states[i].name, i))
            w('      if ( any ? !hit : f != 0 ) return "state_cast to an interface"; }')
        w("    return r;\n  }\n};")
        w("IMachine * make() { return new Impl; }")
        # ---- description ----
        w("ChartDesc describe() {\n  ChartDesc d; d.name = \"%s\"; d.init = %d; d.translator = %d; d.relaxed = %d; d.kinds = %d;"
          % (self.name, self.idx[self.init], self.translator, self.relaxed, self.kinds))
        for s in self.states:
            w("  { StateDesc s; s.name = \"%s\"; s.parent = %d; s.region = %d; s.shallow = %d; s.deep = %d; s.full = %d;"
              % (s.name, self.idx[s.parent] if s.parent else -1, s.region, s.hist in ("shallow", "full"),
                 s.hist in ("deep", "full"), s.full))
            for k, t in s.inits: w("    s.inits.push_back( Target{ %d, %d } );" % (k, self.idx[t]))
            for a in s.actions:
                t = a[1] if a[0] == "TRANSIT" else (0, self.states[0].name)
                w("    s.actions.push_back( Action{ A_%s, Target{ %d, %d }, %d } );"
                  % (a[0], t[0], self.idx[t[1]], self.actx(a[2]) if a[0] == "TRANSIT" else -2))
            for r in ([("CUSTOM", "*")] if s.reactions is None else s.reactions):
                t = r[2] if len(r) > 2 and r[2] else (0, self.states[0].name)
                kind = -1 if r[1] == "*" else 100 if r[1] == "x" else r[1]
                w("    s.reactions.push_back( Decl{ R_%s, %d, Target{ %d, %d }, %d } );"
                  % (r[0], kind, t[0], self.idx[t[1]], self.actx(r[3]) if len(r) > 3 else -2))
            w("    d.states.push_back( s ); }")
        for (h, r, deep) in self.clears:
            w("  d.clears.push_back( HistClear{ %d, %d, %s } );" % (self.idx[h], r, "true" if deep else "false"))
        w("  return d;\n}")
        w("Registrar registrar( ChartEntry{ describe(), &make } );")
        w("} // namespace")
        return "\n".join(o) + "\n"

    def actx(self, a):
        if a[:2] == "r:": a = a[2:]
        return -2 if a == "-" else -1 if a == "M" else self.idx[a]

    @staticmethod
    def cpp_ctx(a):
        return "Role" + a[2:] if a[:2] == "r:" else a

    def cpp_ev(self, k):
        return "sc::event_base" if k == "*" else ("ExcEv" if self.translator == 2 else "sc::exception_thrown") if k == "x" else "Ev< %d >" % k

    def cpp_decl(self, s, r):
        """reactions: (CUSTOM, kind) (INSTATE, kind, None, ctx) (TRANSITION, kind, target, ctx)
        (TERMINATION, kind) (DEFERRAL, kind); kind: int, '*' (any event), 'x' (exception)"""
        e = self.cpp_ev(r[1])
        ctx = r[3] if len(r) > 3 else "-"
        if r[0] == "CUSTOM": return "sc::custom_reaction< %s >" % e
        if r[0] == "TERMINATION": return "sc::termination< %s >" % e
        if r[0] == "DEFERRAL": return "sc::deferral< %s >" % e
        if r[0] == "INSTATE":
            return "sc::in_state_reaction< %s%s >" % (e, "" if ctx == "-" else ", %s, &%s::instate< %s >" % (self.cpp_ctx(ctx), self.cpp_ctx(ctx), e))
        return "sc::transition< %s, %s%s >" % (e, self.cpp_target(r[2]), "" if ctx == "-" else ", %s, &%s::act< %s >" % (self.cpp_ctx(ctx), self.cpp_ctx(ctx), e))

    def cpp_react(self, w, s, ev):
        w("sc::result %s::react( const %s & e ) {" % (s.name, ev))
        w("  switch ( reacted< Chart >( *this, e ) ) {")
        w("    case 1: return discard_event();")
        w("    case 2: return defer_event();")
        w("    case 3: return terminate();")
        for i, a in enumerate(s.actions):
            if a[0] != "TRANSIT": continue
            if a[2] == "-": w("    case %d: return transit< %s >();" % (i, self.cpp_target(a[1])))
            else: w("    case %d: return transit< %s >( &%s::act< %s >, e );" % (i, self.cpp_target(a[1]), self.cpp_ctx(a[2]), ev))
        w("    default: return forward_event();")
        w("  }\n}")
