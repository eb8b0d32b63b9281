"""C23: uses of the documented interface. «good|bad|bad...»: the text with the first alternative everywhere has to
compile, and with any one other alternative it must not. «+good|good»: alternatives that all have to compile.
Keys: name, text, needed conditions ('' or a set of: threads, nothreads, debug, builtin, native)."""
CHART = """struct E1 : sc::event< E1 > { int v; E1() : v( 1 ) {} }; struct E2 : sc::event< E2 > {}; struct NoEvent {};
struct NotDerived {}; struct Base { int b; Base() : b( 0 ) {} void baseAct( const E1 & ) {} };
struct A; struct B; struct C; struct D; struct X;
struct M : sc::state_machine< M, A >, Base { void act( const E1 & ) {} void act2( const E2 & ) {} void other( int ) {} void actBase( const sc::event_base & ) {}
  %M%  };
struct A : sc::simple_state< A, M, mpl::list< B, C >, sc::has_full_history >, Base { void act( const E1 & ) {} void inA() {}
  %A%  };
struct B : sc::simple_state< B, A::orthogonal< 0 > > { void act( const E1 & ) {}
  %B%  };
struct C : sc::state< C, A::orthogonal< 1 > > { C( my_context ctx ) : my_base( ctx ) { %CC% } void act( const E1 & ) {}
  %C%  };
struct D : sc::simple_state< D, A::orthogonal< 0 > > {};
struct X : sc::simple_state< X, M > {};
%G%
void run() { M m; m.initiate(); %R% }
"""


def chart(**k):
    t = CHART
    for x in ("M", "A", "B", "CC", "C", "G", "R"): t = t.replace("%" + x + "%", k.get(x, ""))
    return t


B_REACT = "typedef sc::custom_reaction< E1 > reactions; sc::result react( const E1 & e ) { %s }"
USES = [
    # reactions
    ("transition to a state", chart(B="typedef sc::transition< «E1|NoEvent», «D|NotDerived|E1|int» > reactions;", R="m.process_event( E1() );"), ""),
    ("transition with action", chart(B="typedef sc::transition< E1, D, «A, &A::act|M, &M::act|Base, &Base::baseAct|M, &M::act2|M, &M::other|A, &A::inA» > reactions;".replace("«A, &A::act|M, &M::act|Base, &Base::baseAct|", "«A, &A::act|")), ""),
    ("transition with action, contexts", chart(B="typedef sc::transition< E1, D, «+A, &A::act|M, &M::act» > reactions;"), ""),
    ("termination", chart(B="typedef sc::termination< «E1|NoEvent» > reactions;"), ""),
    ("any event", chart(B="typedef «+sc::termination< sc::event_base >|sc::deferral< sc::event_base >|sc::in_state_reaction< sc::event_base >|sc::transition< sc::event_base, D >|sc::in_state_reaction< sc::event_base, M, &M::actBase >|sc::transition< sc::event_base, D, M, &M::actBase >» reactions;"), ""),
    ("deferral", chart(B="typedef sc::deferral< «E1|NoEvent» > reactions;"), ""),
    ("in-state reaction", chart(B="typedef sc::in_state_reaction< «E1|NoEvent» > reactions;"), ""),
    ("in-state reaction with action", chart(B="typedef sc::in_state_reaction< E1, «B, &B::act|M, &M::other|M, &M::act2|A, &A::inA|NotDerived, 0» > reactions;"), ""),
    ("in-state reaction contexts", chart(B="typedef sc::in_state_reaction< E1, «+B, &B::act|A, &A::act|M, &M::act|Base, &Base::baseAct» > reactions;"), ""),
    ("reaction list", chart(B="typedef mpl::list< «+sc::termination< E1 >, sc::deferral< E2 >|sc::transition< E1, D >|sc::custom_reaction< E1 >, sc::transition< E2, D >» > reactions; sc::result react( const E1 & ) { return forward_event(); }"), ""),
    ("list with something else", chart(B="typedef mpl::list< sc::termination< E1 >«|, E2|, int|, D» > reactions;"), ""),
    ("custom reaction", chart(B="typedef sc::custom_reaction< E1 > reactions; «sc::result react( const E1 & ) { return discard_event(); }||sc::result react( const E2 & ) { return discard_event(); }|sc::result react( E1 & ) { return discard_event(); }|sc::result react( int ) { return discard_event(); }|void react( const E1 & ) {}|sc::result reaction( const E1 & ) { return discard_event(); }»"), ""),
    ("custom reaction for all events", chart(B="typedef sc::custom_reaction< sc::event_base > reactions; sc::result react( const sc::event_base & ) { return «+discard_event()|forward_event()|defer_event()|terminate()|transit< D >()» ; }"), ""),
    ("reaction results", chart(B=B_REACT % "( void )e; «+return discard_event();|return forward_event();|return defer_event();|return terminate();|return transit< D >();|return transit< D >( &A::act, e );|return transit< D >( &M::act, e );|sc::result r( discard_event() ); return r;»"), ""),
    ("wrong transit", chart(B=B_REACT % "( void )e; «return transit< D >();|return transit< NotDerived >();|return transit< int >();|return transit< D >( &A::act );|return transit< D >( &M::act2, e );|return transit< D >( &NotDerived::act, e );|return transit< D >( &M::other, e );»"), ""),
    ("transit to history", chart(B=B_REACT % "( void )e; return «+transit< sc::shallow_history< D > >()|transit< sc::deep_history< D > >()|transit< sc::shallow_history< D > >( &M::act, e )|transit< sc::deep_history< B > >( &A::act, e )»;"), ""),
    ("transit to undeclared history", chart(B=B_REACT % "( void )e; «return transit< X >();|return transit< sc::shallow_history< X > >();|return transit< sc::deep_history< X > >();|return transit< sc::shallow_history< X > >( &M::act, e );|return transit< sc::deep_history< X > >( &M::act, e );»"), ""),
    ("results are not values", chart(B=B_REACT % "( void )e; «sc::result r( discard_event() ); return r;|sc::result r; return discard_event();|sc::result r( discard_event() ); r = discard_event(); return r;|sc::result r( 0 ); return r;|return 0;|return true;»"), "debug"),
    # state members
    ("state members", chart(B=B_REACT % "( void )e; «+post_event( E2() )|post_event( e )|post_event( boost::intrusive_ptr< const sc::event_base >( new E2 ) )|post_event( boost::intrusive_ptr< E2 >( new E2 ) )|clear_shallow_history< A, 0 >()|clear_shallow_history< A, 1 >()|clear_deep_history< A, 0 >()|clear_deep_history< A, 1 >()|outermost_context().b = 1|context< A >().inA()|context< M >().b = 1|context< Base >().b = 1|state_cast< const A & >()|state_cast< const A * >()|state_cast< const Base & >()|state_downcast< const A & >()|state_downcast< const B * >()|state_begin() == state_end()|triggering_event()->dynamic_type() == e.dynamic_type()|static_type() == B::static_type()»; return discard_event();"), ""),
    ("const state members", chart(B="int q() const { int n = 0; «+outermost_context().b == 0|context< A >().b == 0|context< M >().b == 0|state_cast< const A & >()|state_downcast< const A * >()|state_begin() == state_end()|triggering_event()|for ( state_iterator i = state_begin(); i != state_end(); ++i ) ++n|for ( M::state_iterator i = state_begin(); i != state_end(); i++ ) n += i->outer_state_ptr() == 0|n += ( *state_begin() ).dynamic_type() == B::static_type()»; return n; }", R="m.state_cast< const B & >().q();"), ""),
    ("wrong state members", chart(B=B_REACT % "( void )e; «post_event( E2() )|post_event( NoEvent() )|post_event( 1 )|clear_shallow_history< A, 2 >()|clear_deep_history< A, 2 >()|clear_shallow_history< X, 0 >()|clear_deep_history< X, 0 >()|clear_shallow_history< M, 0 >()|clear_shallow_history< B, 0 >()|context< C >()|context< D >()|context< X >()|context< NotDerived >()|process_event( E2() )»; return discard_event();"), ""),
    ("const access", chart(B="void q() const { «triggering_event()|outermost_context().b = 1|context< A >().b = 1|context< A >().inA()|context< M >().b = 1|post_event( E2() )|clear_shallow_history< A, 0 >()|terminate()|transit< D >()|defer_event()»; }", R="m.state_cast< const B & >().q();"), ""),
    ("read only event", chart(B=B_REACT % "int v = «e.v|++const_cast< E1 & >( e ).v|++e.v|e.v = 2|( e.v += 1 )»; ( void )v; return discard_event();".replace("|++const_cast< E1 & >( e ).v", "")), ""),
    ("state constructor may use its machine", chart(CC="«+post_event( E2() )|outermost_context().b = 1|context< A >().inA()|clear_shallow_history< A, 0 >()|state_begin()|triggering_event()|state_cast< const A * >()|state_downcast< const A * >()»;"), ""),
    # machines
    ("machine members", chart(R="«+m.process_event( E1() )|E1 e; m.process_event( e )|const E1 e; m.process_event( e )|const sc::event_base & e = E1(); m.process_event( e )|m.terminate()|m.initiate(); m.initiate()|m.terminated()|m.state_cast< const A & >()|m.state_cast< const A * >()|m.state_cast< const Base * >()|m.state_downcast< const B & >()|m.state_downcast< const B * >()|m.state_begin() == m.state_end()|const M & c = m; c.terminated(); c.state_cast< const A * >(); c.state_downcast< const A * >(); for ( M::state_iterator i = c.state_begin(); i != c.state_end(); ++i ) i->outer_state_ptr()|M::state_base_type const * s = &*m.state_begin(); s->outer_state_ptr(); s->dynamic_type() == B::static_type()|m.unconsumed_event( E1() )»;"), ""),
    ("wrong machine use", chart(R="«m.process_event( E1() )|m.process_event( NoEvent() )|m.process_event( 1 )|m.process_event()|m.process_event( new E1 )|m.post_event( E1() )|m.initiate( 1 )|const M & c = m; c.process_event( E1() )|const M & c = m; c.terminate()|const M & c = m; c.initiate()|M copy( m )|M other; other = m|M::state_iterator()->exit()|m.state_begin()->exit()»;"), ""),
    ("queries do not hand out write access", chart(R="«m.state_cast< const A & >().b == 0|m.state_cast< const A & >().b = 1|m.state_downcast< const A & >().b = 1|m.state_cast< A & >()|m.state_cast< A * >()|m.state_downcast< A & >()|m.state_downcast< A * >()»;"), ""),
    ("derived machine uses protected members", chart(M="void go() { «+post_event( E1() )|post_event( boost::intrusive_ptr< const sc::event_base >( new E1 ) )|triggering_event()|process_event( E1() )|terminate()»; } void goc() const { triggering_event(); }", R="m.go(); m.goc();"), ""),
    ("unconsumed events", chart(M="void unconsumed_event( const sc::event_base & e ) { ( void )e; «+throw 1|post_event( e )» ; }", R="m.process_event( E2() );"), ""),
    ("machine parameters", "struct A; struct M : sc::state_machine< M, A«+|, std::allocator< sc::none >|, std::allocator< void >|, std::allocator< sc::none >, sc::null_exception_translator|, std::allocator< sc::none >, sc::exception_translator<>» > {}; struct A : sc::simple_state< A, M > {}; void run() { M m; m.initiate(); m.terminate(); }\n", ""),
    ("machine initial state", "struct A; struct M : sc::state_machine< M, «A|int|struct Z|NotAState» > {}; struct Z {}; struct NotAState {}; struct A : sc::simple_state< A, M > {}; void run() { M m; m.initiate(); m.terminate(); }\n".replace("struct A; struct M", "struct NotAState; struct A; struct M"), ""),
    ("exception event", "struct Ex : sc::event< Ex > {}; struct A; struct M : sc::state_machine< M, A, std::allocator< sc::none >, sc::exception_translator< «Ex|int|A» > > {}; struct A : sc::simple_state< A, M > {}; void run() { M m; m.initiate(); m.process_event( Ex() ); }\n", ""),
    ("own translator", "struct Ex : sc::event< Ex > {}; struct T { template< class Action, class Handler > sc::result operator()( Action a, Handler h ) { try { return a(); } catch ( ... ) { return h( «Ex()|1» ); } } }; struct A; struct M : sc::state_machine< M, A, std::allocator< sc::none >, T > {}; struct A : sc::simple_state< A, M > {}; void run() { M m; m.initiate(); m.process_event( Ex() ); }\n", ""),
    # events
    ("events", "struct E : sc::event< E«+|, std::allocator< void >|, std::allocator< sc::none >|, std::allocator< char >» > { int v; E() : v( 0 ) {} }; void run() { E e; E f( e ); f = e; E * p = new E; boost::intrusive_ptr< const sc::event_base > q( p ); boost::intrusive_ptr< const sc::event_base > r = e.intrusive_from_this(); r = q->intrusive_from_this(); e.dynamic_type() == E::static_type(); const sc::event< E«+|, std::allocator< void >|, std::allocator< sc::none >|, std::allocator< char >» > * b = 0; ( void )b; }\n".replace("const sc::event< E«+|, std::allocator< void >|, std::allocator< sc::none >|, std::allocator< char >» > * b = 0; ( void )b; ", ""), ""),
    ("events are shared read only", "struct E : sc::event< E > { int v; E() : v( 0 ) {} }; void run() { boost::intrusive_ptr< const sc::event_base > q( new E ); «q->dynamic_type()|delete q.get()|sc::event_base b|sc::event_base b( *q )|sc::event< E > b|static_cast< E & >( *q ).v = 1|boost::intrusive_ptr< sc::event_base > w = q->intrusive_from_this()»; }\n", ""),
    ("events need their own type", "struct E : sc::event< «E|int» > {}; void run() { E e; e.intrusive_from_this(); new E; }\n", ""),
    ("custom type information", chart(R="static int id, other; «+E1::custom_static_type_ptr( &id )|B::custom_static_type_ptr( &id )|E1::custom_static_type_ptr< int >()|B::custom_static_type_ptr< int >()|E1 e; e.custom_dynamic_type_ptr< int >()|m.state_begin()->custom_dynamic_type_ptr< int >()»; ( void )id; ( void )other;"), "builtin"),
    ("custom type information is not available", chart(R="static int id; «( void )id|E1::custom_static_type_ptr( &id )|B::custom_static_type_ptr( &id )|E1::custom_static_type_ptr< int >()|B::custom_static_type_ptr< int >()|E1 e; e.custom_dynamic_type_ptr< int >()|m.state_begin()->custom_dynamic_type_ptr< int >()»;"), "native"),
    # asynchronous machines
    ("scheduler", "ASYNC void run() { Sched s; Sched::processor_handle h; «+h = s.create_processor< P >()|h = s.create_processor< Q >( 1 )|int i = 2; h = s.create_processor< Q >( i )|int i = 2; h = s.create_processor< R >( boost::ref( i ) )|h = s.create_processor< Q2 >( 1, 'c' )|s.destroy_processor( h )|s.initiate_processor( h )|s.terminate_processor( h )|s.queue_event( h, Sched::event_ptr_type( new E ) )|s.queue_event( h, boost::intrusive_ptr< E >( new E ) )|s.queue_work_item( &work )|Sched::work_item w( &work ); s.queue_work_item( w )|s.queue_work_item( Sched::work_item( &work ) )|s.terminate()|s.terminated()|const Sched & c = s; c.terminated()|unsigned long n = s(); ( void )n|s( 3 )»; }\n", ""),
    ("wrong scheduler use", "ASYNC void run() { Sched s; Sched::processor_handle h; «s()|s.create_processor< int >()|s.create_processor< E >()|s.create_processor< Plain >()|s.create_processor< Q >()|s.create_processor< P >( 1 )|s.create_processor< Q2 >( 1 )|s.queue_event( h, 1 )|s.queue_event( h, E() )|s.queue_event( h )|s.queue_work_item( 1 )|s.queue_work_item()|Sched t( s )|Sched t; t = s|P p|const Sched & c = s; c()|const Sched & c = s; c.terminate()|const Sched & c = s; c.destroy_processor( h )|s.initiate_processor()|s.terminate_processor( 3 )»; }\n", ""),
    ("blocking scheduler", "ASYNC void run() { «+Sched s|Sched s( true )|Sched s( false )»; s(); }\n", "threads"),
    ("scheduler without threads", "ASYNC void run() { «Sched s|Sched s( true )|Sched s( false )»; s(); }\n", "nothreads"),
    ("processor", "ASYNC struct U : Machine< U > { U( my_context ctx ) : my_base( ctx ) {} void go() { «+my_scheduler()|my_scheduler().queue_event( my_handle(), Sched::event_ptr_type( new E ) )|my_scheduler().terminate()|Sched & s = my_scheduler(); ( void )s|Sched::processor_handle h = my_handle(); ( void )h»; } }; void run() { Sched s; Sched::processor_handle h = s.create_processor< U >(); ( void )h; void ( U::*p )() = &U::go; ( void )p; }\n", ""),
    ("own processor", "ASYNC struct U : sc::event_processor<«+ Sched > { U( my_context ctx ) : sc::event_processor< Sched >( ctx ) {}» «virtual void initiate_impl() {}||virtual void initiate_impl( int ) {}» «virtual void process_event_impl( const sc::event_base & ) {}||virtual void process_event_impl( const E & ) {}» «virtual void terminate_impl() {}|» }; void run() { Sched s; s.create_processor< U >(); }\n", ""),
    ("worker", "void work() {} void run() { sc::fifo_worker<> w; «+w.queue_work_item( &work )|sc::fifo_worker<>::work_item i( &work ); w.queue_work_item( i )|const sc::fifo_worker<>::work_item i( &work ); w.queue_work_item( i )|w.terminate()|w.terminated()|const sc::fifo_worker<> & c = w; c.terminated()|unsigned long n = w(); ( void )n|w( 7 )»; }\n", ""),
    ("wrong worker use", "void work() {} int x; void run() { sc::fifo_worker<> w; «w()|w.queue_work_item( 1 )|w.queue_work_item()|w.queue_work_item( work, 1 )|sc::fifo_worker<> v( w )|sc::fifo_worker<> v; v = w|const sc::fifo_worker<> & c = w; c()|const sc::fifo_worker<> & c = w; c.terminate()|const sc::fifo_worker<> & c = w; c.queue_work_item( &work )»; }\n", ""),
    ("blocking worker", "void run() { «+sc::fifo_worker<> w|sc::fifo_worker<> w( true )|sc::fifo_worker<> w( false )|sc::fifo_worker< std::allocator< char > > w»; w(); }\n", "threads"),
    ("worker without threads", "void run() { «sc::fifo_worker<> w|sc::fifo_worker<> w( true )|sc::fifo_worker<> w( false )»; w(); }\n", "nothreads"),
]
ASYNC = """struct E : sc::event< E > {}; typedef sc::fifo_scheduler<> Sched; void work() {}
template< class D > struct Idle; template< class D > struct Machine : sc::asynchronous_state_machine< D, Idle< D > > { typedef typename sc::event_processor< Sched >::my_context my_context; typedef Machine my_base; Machine( my_context ctx ) : sc::asynchronous_state_machine< D, Idle< D > >( ctx ) {} };
template< class D > struct Idle : sc::simple_state< Idle< D >, D > {}; struct Plain;
struct P : Machine< P > { P( my_context ctx ) : my_base( ctx ) {} };
struct Q : Machine< Q > { Q( my_context ctx, int ) : my_base( ctx ) {} };
struct Q2 : Machine< Q2 > { Q2( my_context ctx, int, char ) : my_base( ctx ) {} };
struct R : Machine< R > { R( my_context ctx, int & ) : my_base( ctx ) {} };
struct PlainState; struct Plain : sc::state_machine< Plain, PlainState > {}; struct PlainState : sc::simple_state< PlainState, Plain > {};
"""


def expand(text):
    """[(kind, text)]: kind 'valid' or 'invalid'"""
    parts, i = [], 0
    while True:
        a = text.find("«", i)
        if a < 0: parts.append((None, [text[i:]])); break
        b = text.index("»", a)
        parts.append((None, [text[i:a]]))
        h = text[a + 1:b]
        parts.append(("+", h[1:].split("|")) if h.startswith("+") else ("-", h.split("|")))
        i = b + 1
    base = [p[1][0] for p in parts]
    out = [("valid", "".join(base))]
    for k, (kind, alts) in enumerate(parts):
        for alt in alts[1:]:
            out.append(("valid" if kind == "+" else "invalid", "".join(base[:k] + [alt] + base[k + 1:])))
    return out


def uses(conditions):
    for name, text, need in USES:
        if need and need not in conditions: continue
        for kind, t in expand(text):
            yield kind, name, t.replace("ASYNC ", ASYNC)
