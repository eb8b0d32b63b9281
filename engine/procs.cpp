// C19: every sequence of scheduler operations on processors in one thread.
#include <boost/statechart/event.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/ref.hpp>
#include <algorithm>
#include <deque>
#include <set>
#include "seq.hpp"
using namespace seq;
namespace sc = boost::statechart;

#ifdef CUSTOM_ALLOC
static long allocated = 0;
template< class T > struct Alloc
{
  typedef T value_type; template< class U > struct rebind { typedef Alloc< U > other; };
  Alloc() {} template< class U > Alloc( const Alloc< U > & ) {}
  T * allocate( size_t n, const void * = 0 ) { ++allocated; return static_cast< T * >( ::operator new( n * sizeof( T ) ) ); }
  void deallocate( T * p, size_t ) { --allocated; ::operator delete( p ); }
};
template< class T, class U > bool operator==( const Alloc< T > &, const Alloc< U > & ) { return true; }
template< class T, class U > bool operator!=( const Alloc< T > &, const Alloc< U > & ) { return false; }
typedef sc::fifo_worker< Alloc< sc::none > > Worker;
typedef sc::fifo_scheduler< Worker, Alloc< sc::none > > Scheduler;
#else
typedef sc::fifo_scheduler<> Scheduler;
#endif
typedef Scheduler::processor_handle Handle;

enum Evk { PLAIN, SELFDESTROY, SENDOTHER, THROWS, REQUEUE, DESTROYOTHER, CREATES, NESTED, EVKINDS };
static long liveEvents = 0, liveProcs = 0;
struct Ev : sc::event< Ev >
{
  int kind, id, slot; unsigned magic;
  Ev( int k, int i, int s ) : kind( k ), id( i ), slot( s ), magic( 77 ) { ++liveEvents; }
  Ev( const Ev & o ) : kind( o.kind ), id( o.id ), slot( o.slot ), magic( 77 ) { ++liveEvents; }
  virtual ~Ev() { --liveEvents; magic = 0; }
};
struct Oops { int id; };
typedef std::vector< std::string > Log;
static std::string entry( char c, int a, int b = -1 ) { return std::string( 1, c ) + std::to_string( a ) + ( b >= 0 ? "." + std::to_string( b ) : "" ); }

struct Sys;
static Sys * sys = 0;
static void note( const std::string & s );
static void reaction( int proc, const Ev & e, Scheduler & s, const Handle & self, bool plain );

struct P : sc::event_processor< Scheduler >
{
  int id; unsigned magic;
  P( my_context c, int i ) : sc::event_processor< Scheduler >( c ), id( i ), magic( 99 ) { note( entry( 'c', id ) ); ++liveProcs; }
  ~P() { if ( magic != 99 ) fail( "processor destroyed twice" ); magic = 0; --liveProcs; note( entry( 'd', id ) ); }
  void alive() { if ( magic != 99 ) fail( "operation on a destroyed processor" ); }
  void initiate_impl() { alive(); note( entry( 'i', id ) ); }
  void terminate_impl() { alive(); note( entry( 't', id ) ); }
  void process_event_impl( const sc::event_base & b )
  {
    alive();
    const Ev & e = dynamic_cast< const Ev & >( b );
    if ( e.magic != 77 ) fail( "event destroyed before it is processed" );
    note( entry( 'e', id, e.id ) );
    reaction( id, e, my_scheduler(), my_handle(), true );
    alive(); if ( e.magic != 77 ) fail( "event destroyed while it is processed" );
  }
};
struct PX : P { PX( my_context c, int i ) : P( c, i ) { throw Oops{ 1000 + i }; } };
static void constructing( int id, Scheduler & s, const Handle & self );
struct PQ : P { PQ( my_context c, int i ) : P( c, i ) { constructing( i, my_scheduler(), my_handle() ); } };                                   // sends itself an event
struct PY : P { PY( my_context c, int i ) : P( c, i ) { constructing( i, my_scheduler(), my_handle() ); throw Oops{ 1000 + i }; } };             // and then throws
struct PI : P { PI( my_context c, int i ) : P( c, i ) {} void initiate_impl() { P::initiate_impl(); throw Oops{ 2000 + id }; } void terminate_impl() { P::terminate_impl(); throw Oops{ 3000 + id }; } };
struct AS;
struct A : sc::asynchronous_state_machine< A, AS, Scheduler >
{
  int id;
  A( my_context c, int i ) : my_base( c ), id( i ) { note( entry( 'c', id ) ); ++liveProcs; }
  ~A() { terminate_states(); --liveProcs; note( entry( 'd', id ) ); }
  void terminate_states() {}
  void unconsumed_event( const sc::event_base & b ) { note( entry( 'u', id, dynamic_cast< const Ev & >( b ).id ) ); }
};
struct AS : sc::simple_state< AS, A >
{
  AS() { note( "s" ); }
  ~AS() { note( "z" ); }
  typedef sc::custom_reaction< Ev > reactions;
  sc::result react( const Ev & e )
  {
    if ( e.magic != 77 ) fail( "event destroyed before it is processed" );
    A & a = outermost_context();
    note( entry( 'e', a.id, e.id ) );
    reaction( a.id, e, a.my_scheduler(), a.my_handle(), false );
    return discard_event();
  }
};

struct Sys
{
  Scheduler * s; Handle h[ 2 ]; Log log; int nextEv, nextProc, nextProc2; bool used[ 2 ];
  // model
  enum Type { NONE, TP, TX, TA, TQ, TY, TI };
  struct MP { int type; bool alive, active; int busy = 0; bool gone = false; MP( int t, bool a, bool c ) : type( t ), alive( a ), active( c ) {} };
  struct Item { char what; int proc, type, ev, kind, slot; };
  std::vector< MP > procs; int mh[ 2 ]; std::deque< Item > q; Log mlog; bool term; int mev;

  Sys() : s( new Scheduler ), nextEv( 0 ), nextProc( 0 ), nextProc2( 0 ), term( false ), mev( 0 ) { sys = this; mh[ 0 ] = mh[ 1 ] = -1; used[ 0 ] = used[ 1 ] = false; liveEvents = liveProcs = 0; }
  enum { CP, CX, CA, CQ, CY, CI, INIT, EV0, TERMP = EV0 + EVKINDS, DESTROY, PER };
  enum { R0 = 2 * PER, R1, TERM, OPS };
  std::string name( int o ) const
  {
    if ( o == R0 ) return "run()"; if ( o == R1 ) return "run( 1 )"; if ( o == TERM ) return "terminate()";
    static const char * ev[] = { "plain", "reaction destroys its processor", "reaction sends to the other handle", "reaction throws", "reaction sends to itself", "reaction destroys the other handle's processor", "reaction creates a processor for the other handle", "reaction runs the next item" };
    std::string sl = " handle " + std::to_string( o / PER ); int k = o % PER;
    switch ( k ) { case CP: return "create_processor< plain >" + sl; case CX: return "create_processor< throwing constructor >" + sl; case CA: return "create_processor< machine >" + sl; case CQ: return "create_processor< constructor sends to itself >" + sl; case CY: return "create_processor< constructor sends to itself and throws >" + sl; case CI: return "create_processor< initiate and terminate throw >" + sl;
      case INIT: return "initiate_processor" + sl; case TERMP: return "terminate_processor" + sl; case DESTROY: return "destroy_processor" + sl; default: return std::string( "queue_event " ) + ev[ k - EV0 ] + sl; }
  }
  bool enabled( int o )
  {
    if ( o == R1 || o == R0 ) return true;
    if ( o < 2 * PER && !num( "ext", 0 ) ) { int k = o % PER; if ( ( k >= CQ && k <= CI ) || ( k >= EV0 + DESTROYOTHER && k <= EV0 + NESTED ) ) return false; }
    if ( o < 2 * PER && o / PER == 1 && !used[ 0 ] ) return false;       // the handles are alike: use 0 first
    return true;
  }
  // ---- model ----
  struct Escape { int id; };
  void mdestroy( int p )
  {
    if ( p < 0 || !procs[ p ].alive ) return;
    procs[ p ].alive = false;
    mlog.push_back( entry( 'd', p ) );
    if ( procs[ p ].active ) { mlog.push_back( "z" ); procs[ p ].active = false; }
  }
  void unbusy( int p ) { if ( --procs[ p ].busy == 0 && procs[ p ].gone ) mdestroy( p ); }
  void mreact( int p, const Item & i )
  {
    switch ( i.kind )
    {
      case SELFDESTROY: q.push_back( Item{ 'd', p, 0, 0, 0, 0 } ); break;
      case SENDOTHER: q.push_back( Item{ 'e', mh[ 1 - i.slot ], 0, mev++, PLAIN, 1 - i.slot } ); break;
      case DESTROYOTHER: q.push_back( Item{ 'd', mh[ 1 - i.slot ], 0, 0, 0, 1 - i.slot } ); break;
      case CREATES: { int id = nextProc2++; procs.push_back( MP{ NONE, false, false } ); mh[ 1 - i.slot ] = id; used[ 1 - i.slot ] = true; q.push_back( Item{ 'c', id, TP, 0, 0, 1 - i.slot } ); break; }
      case REQUEUE: q.push_back( Item{ 'e', p, 0, mev++, PLAIN, i.slot } ); break;
      case THROWS: throw Escape{ i.ev };
      case NESTED:      // whoever is destroyed during its own reaction lives until the end of it
        if ( procs[ p ].type == TA ) break;
        ++procs[ p ].busy;
        try { mrun( 1 ); } catch ( const Escape & ) { unbusy( p ); throw; }
        unbusy( p );
        break;
    }
  }
  void mexec( const Item & i )
  {
    int p = i.proc; bool ok = p >= 0 && procs[ p ].alive;
    switch ( i.what )
    {
      case 'T': term = true; break;
      case 'c':
        mlog.push_back( entry( 'c', p ) );
        if ( i.type == TQ || i.type == TY ) q.push_back( Item{ 'e', p, 0, mev++, PLAIN, i.slot } );
        if ( i.type == TX || i.type == TY ) { mlog.push_back( entry( 'd', p ) ); throw Escape{ 1000 + p }; }
        procs[ p ].alive = true; procs[ p ].type = i.type; break;
      case 'i': if ( ok ) { if ( procs[ p ].type != TA ) { mlog.push_back( entry( 'i', p ) ); if ( procs[ p ].type == TI ) throw Escape{ 2000 + p }; } else { if ( procs[ p ].active ) mlog.push_back( "z" ); mlog.push_back( "s" ); procs[ p ].active = true; } } break;
      case 't': if ( ok ) { if ( procs[ p ].type != TA ) { mlog.push_back( entry( 't', p ) ); if ( procs[ p ].type == TI ) throw Escape{ 3000 + p }; } else { if ( procs[ p ].active ) mlog.push_back( "z" ); procs[ p ].active = false; } } break;
      case 'd': if ( ok ) { if ( procs[ p ].busy ) procs[ p ].gone = true; else mdestroy( p ); } break;
      case 'e': if ( ok ) {
          if ( procs[ p ].type == TA && !procs[ p ].active ) mlog.push_back( entry( 'u', p, i.ev ) );
          else { mlog.push_back( entry( 'e', p, i.ev ) ); if ( i.kind == THROWS && procs[ p ].type == TA ) { mlog.push_back( "z" ); procs[ p ].active = false; } mreact( p, i ); } } break;
    }
  }
  long mrun( unsigned long lim )
  {
    unsigned long n = 0;
    while ( !term && ( lim == 0 || n < lim ) )
    {
      if ( q.empty() ) return long( n );
      Item i = q.front(); q.pop_front();
      mexec( i ); ++n;
    }
    return long( n );
  }
  // ---- both ----
  void apply( int o )
  {
    if ( o == TERM ) { s->terminate(); q.push_back( Item{ 'T', -1, 0, 0, 0, 0 } ); }
    else if ( o == R0 || o == R1 )
    {
      long got, want; unsigned long lim = o == R0 ? 0 : 1;
      try { got = long( ( *s )( lim ) ); } catch ( const Oops & e ) { got = -1 - e.id; }
      try { want = mrun( lim ); } catch ( const Escape & e ) { want = -1 - e.id; }
      if ( got != want ) fail( "run returned " + std::to_string( got ) + ", expected " + std::to_string( want ) + " (negative: -1 - id of an exception)" );
    }
    else
    {
      int sl = o / PER, k = o % PER; used[ sl ] = true;
      if ( k <= CI )
      {
        int id = nextProc++; nextProc2 = nextProc;
        h[ sl ] = k == CP ? s->create_processor< P >( id ) : k == CX ? s->create_processor< PX >( id ) : k == CA ? s->create_processor< A >( id ) :
          k == CQ ? s->create_processor< PQ >( id ) : k == CY ? s->create_processor< PY >( id ) : s->create_processor< PI >( id );
        procs.push_back( MP{ NONE, false, false } ); mh[ sl ] = id;
        q.push_back( Item{ 'c', id, k == CP ? TP : k == CX ? TX : k == CA ? TA : k == CQ ? TQ : k == CY ? TY : TI, 0, 0, sl } );
      }
      else if ( k == INIT ) { s->initiate_processor( h[ sl ] ); q.push_back( Item{ 'i', mh[ sl ], 0, 0, 0, sl } ); }
      else if ( k == TERMP ) { s->terminate_processor( h[ sl ] ); q.push_back( Item{ 't', mh[ sl ], 0, 0, 0, sl } ); }
      else if ( k == DESTROY ) { s->destroy_processor( h[ sl ] ); q.push_back( Item{ 'd', mh[ sl ], 0, 0, 0, sl } ); }
      else
      {
        s->queue_event( h[ sl ], boost::intrusive_ptr< const sc::event_base >( new Ev( k - EV0, nextEv++, sl ) ) );
        q.push_back( Item{ 'e', mh[ sl ], 0, mev++, k - EV0, sl } );
      }
    }
    compare();
  }
  static std::string join( const Log & l ) { std::string s; for ( const std::string & e : l ) s += " " + e; return s; }
  void compare()
  {
    if ( log != mlog ) fail( "calls:" + join( log ) + "\nexpected:" + join( mlog ) + "\n(c constructor, d destructor, i initiate, e event, t terminate, u unconsumed, s state entered, z state left)" );
    long pe = 0; for ( const Item & i : q ) pe += i.what == 'e';
    if ( liveEvents != pe ) fail( std::to_string( liveEvents ) + " events alive, expected " + std::to_string( pe ) );
    long lp = 0; for ( const MP & p : procs ) lp += p.alive;
    if ( liveProcs != lp ) fail( std::to_string( liveProcs ) + " processors alive, expected " + std::to_string( lp ) );
    if ( s->terminated() != term ) fail( "terminated() is wrong" );
  }
  void finish()
  {
    Log before = log, mbefore = mlog; log.clear(); mlog.clear();
    delete s; s = 0;
    for ( size_t p = 0; p < procs.size(); ++p ) mdestroy( int( p ) );
    std::sort( log.begin(), log.end() ); std::sort( mlog.begin(), mlog.end() );     // (their order is unspecified)
    if ( log != mlog ) fail( "calls when the scheduler is destroyed:" + join( log ) + "\nexpected:" + join( mlog ) );
    if ( liveEvents != 0 || liveProcs != 0 ) fail( "events or processors survive the scheduler" );
    // stale handles: nothing to be alive behind them
    h[ 0 ] = Handle(); h[ 1 ] = Handle();
    if ( liveProcs != 0 ) fail( "processor count wrong after the handles are gone" );
#ifdef CUSTOM_ALLOC
    if ( allocated != 0 ) fail( "allocator blocks survive the scheduler" );
#endif
  }
  bool bounded() const { return q.size() <= 4 && procs.size() <= 4; }
  std::string key() const
  {
    // processors named by order of first mention
    std::string k( 1, char( '0' + term ) ); std::map< int, int > nm;
    auto n = [&]( int p ) { if ( p < 0 ) return std::string( "-" ); if ( !nm.count( p ) ) { int c = int( nm.size() ); nm[ p ] = c; } const MP & m = procs[ p ];
      return std::to_string( nm[ p ] ) + char( 'a' + m.type ) + char( '0' + m.alive ) + char( '0' + m.active ); };
    k += n( mh[ 0 ] ) + n( mh[ 1 ] ) + char( '0' + used[ 0 ] );
    for ( const Item & i : q ) { k += '/'; k += i.what; k += n( i.proc ); k += char( 'a' + i.kind ); k += char( '0' + i.type ); if ( i.what == 'e' ) k += char( '0' + i.slot ); }
    int others = 0; for ( size_t p = 0; p < procs.size(); ++p ) if ( procs[ p ].alive && !nm.count( int( p ) ) ) ++others;
    return k + "+" + std::to_string( others );
  }
};
static void note( const std::string & s ) { sys->log.push_back( s ); }
static void reaction( int, const Ev & e, Scheduler & s, const Handle & self, bool plain )
{
  if ( &s != sys->s ) fail( "my_scheduler() is not the processor's scheduler" );
  boost::intrusive_ptr< const sc::event_base > n;
  switch ( e.kind )
  {
    case SELFDESTROY: s.destroy_processor( self ); break;
    case SENDOTHER: n.reset( new Ev( PLAIN, sys->nextEv++, 1 - e.slot ) ); s.queue_event( sys->h[ 1 - e.slot ], n ); break;
    case REQUEUE: n.reset( new Ev( PLAIN, sys->nextEv++, e.slot ) ); s.queue_event( self, n ); break;
    case DESTROYOTHER: s.destroy_processor( sys->h[ 1 - e.slot ] ); break;
    case CREATES: sys->h[ 1 - e.slot ] = s.create_processor< P >( sys->nextProc++ ); break;
    case NESTED: if ( plain ) s( 1 ); break;
    case THROWS: throw Oops{ e.id };
  }
}
static void constructing( int, Scheduler & s, const Handle & self )
{
  if ( &s != sys->s ) fail( "my_scheduler() is not the processor's scheduler" );
  s.queue_event( self, boost::intrusive_ptr< const sc::event_base >( new Ev( PLAIN, sys->nextEv++, 0 ) ) );
}

// ---- constructor arguments: all arities, every combination of by value / by reference ----
static int vals[ 6 ]; static std::vector< const int * > got;
template< int Mask, int I > struct Arg { typedef int type; };
static long argRuns = 0;
struct PA : sc::event_processor< Scheduler >
{
  typedef sc::event_processor< Scheduler > base;
  template< class... T > void take( T &... t ) { got.clear(); const int * a[] = { 0, &t... }; got.assign( a + 1, a + 1 + sizeof...( T ) ); seen.clear(); for ( const int * p : got ) seen.push_back( *p ); }
  static std::vector< int > seen;
  static const void * ctx;
  PA( my_context c ) : base( c ) { take(); }
  PA( my_context c, int & a ) : base( c ) { take( a ); }
  PA( my_context c, int & a, int & b ) : base( c ) { take( a, b ); }
  PA( my_context c, int & a, int & b, int & d ) : base( c ) { take( a, b, d ); }
  PA( my_context c, int & a, int & b, int & d, int & e ) : base( c ) { take( a, b, d, e ); }
  PA( my_context c, int & a, int & b, int & d, int & e, int & f ) : base( c ) { take( a, b, d, e, f ); }
  PA( my_context c, int & a, int & b, int & d, int & e, int & f, int & g ) : base( c ) { take( a, b, d, e, f, g ); }
  ~PA() { --liveProcs; }
  void initiate_impl() { note( "I" ); } void terminate_impl() {} void process_event_impl( const sc::event_base & ) {}
};
std::vector< int > PA::seen; const void * PA::ctx = 0;
template< int M, int I > typename std::enable_if< ( M >> I & 1 ) != 0, boost::reference_wrapper< int > >::type arg() { return boost::ref( vals[ I ] ); }
template< int M, int I > typename std::enable_if< ( M >> I & 1 ) == 0, int >::type arg() { return vals[ I ]; }

// (an int taken by value is an lvalue inside the container, so it binds to int &)
template< int N, int M > void checkArgs( Scheduler & s, const Handle & h )
{
  liveProcs = 1;
  current = "  create_processor with " + std::to_string( N ) + " arguments, by reference: mask " + std::to_string( M ) + "\n";
  for ( int i = 0; i < 6; ++i ) vals[ i ] = 10 + i;
  got.clear(); PA::seen.clear();
  if ( s() != 1 ) fail( "creation not executed" );
  if ( int( got.size() ) != N ) fail( "wrong number of constructor arguments" );
  for ( int i = 0; i < N; ++i )
  {
    // what is taken by value was taken before the assignment above
    int want = ( M >> i & 1 ) ? 10 + i : i;
    if ( PA::seen[ i ] != want ) fail( "constructor argument " + std::to_string( i ) + " has the wrong value" );
    if ( ( ( M >> i & 1 ) != 0 ) != ( got[ i ] == &vals[ i ] ) ) fail( "constructor argument " + std::to_string( i ) + " passed the wrong way" );
  }
  s.initiate_processor( h ); size_t n = sys->log.size(); s();
  if ( sys->log.size() != n + 1 ) fail( "handle does not reach the created processor" );
  s.destroy_processor( h ); s();
  if ( liveProcs != 0 ) fail( "destroy_processor does not destroy the processor" );
  ++argRuns; ++st.ops;
}
template< int M > struct Args
{
  static void run( Scheduler & s )
  {
    auto prep = []() { for ( int i = 0; i < 6; ++i ) vals[ i ] = i; };
    if ( M < 1 ) { prep(); Handle h = s.create_processor< PA >(); checkArgs< 0, M >( s, h ); }
    if ( M < 2 ) { prep(); Handle h = s.create_processor< PA >( arg< M, 0 >() ); checkArgs< 1, M >( s, h ); }
    if ( M < 4 ) { prep(); Handle h = s.create_processor< PA >( arg< M, 0 >(), arg< M, 1 >() ); checkArgs< 2, M >( s, h ); }
    if ( M < 8 ) { prep(); Handle h = s.create_processor< PA >( arg< M, 0 >(), arg< M, 1 >(), arg< M, 2 >() ); checkArgs< 3, M >( s, h ); }
    if ( M < 16 ) { prep(); Handle h = s.create_processor< PA >( arg< M, 0 >(), arg< M, 1 >(), arg< M, 2 >(), arg< M, 3 >() ); checkArgs< 4, M >( s, h ); }
    if ( M < 32 ) { prep(); Handle h = s.create_processor< PA >( arg< M, 0 >(), arg< M, 1 >(), arg< M, 2 >(), arg< M, 3 >(), arg< M, 4 >() ); checkArgs< 5, M >( s, h ); }
    prep(); Handle h = s.create_processor< PA >( arg< M, 0 >(), arg< M, 1 >(), arg< M, 2 >(), arg< M, 3 >(), arg< M, 4 >(), arg< M, 5 >() ); checkArgs< 6, M >( s, h );
    Args< M - 1 >::run( s );
  }
};
template<> struct Args< -1 > { static void run( Scheduler & ) {} };

// a constructor that throws, for every arity
struct PT : sc::event_processor< Scheduler >
{
  typedef sc::event_processor< Scheduler > base;
  PT( my_context c ) : base( c ) { throw Oops{ 0 }; }
  PT( my_context c, int ) : base( c ) { throw Oops{ 1 }; }
  PT( my_context c, int, int ) : base( c ) { throw Oops{ 2 }; }
  PT( my_context c, int, int, int ) : base( c ) { throw Oops{ 3 }; }
  PT( my_context c, int, int, int, int ) : base( c ) { throw Oops{ 4 }; }
  PT( my_context c, int, int, int, int, int ) : base( c ) { throw Oops{ 5 }; }
  PT( my_context c, int, int, int, int, int, int ) : base( c ) { throw Oops{ 6 }; }
  void initiate_impl() { fail( "a processor that was never constructed is initiated" ); } void terminate_impl() {} void process_event_impl( const sc::event_base & ) {}
};
static void throwingConstructors()
{
  for ( int n = 0; n <= 6; ++n ) for ( int op = 0; op < 4; ++op )
  {
    Scheduler s; Handle h;
    current = "  create_processor with " + std::to_string( n ) + " arguments and a throwing constructor, then operation " + std::to_string( op ) + " (initiate, event, terminate, destroy)\n";
    switch ( n ) { case 0: h = s.create_processor< PT >(); break; case 1: h = s.create_processor< PT >( 1 ); break; case 2: h = s.create_processor< PT >( 1, 2 ); break;
      case 3: h = s.create_processor< PT >( 1, 2, 3 ); break; case 4: h = s.create_processor< PT >( 1, 2, 3, 4 ); break; case 5: h = s.create_processor< PT >( 1, 2, 3, 4, 5 ); break;
      default: h = s.create_processor< PT >( 1, 2, 3, 4, 5, 6 ); }
    switch ( op ) { case 0: s.initiate_processor( h ); break; case 1: s.queue_event( h, boost::intrusive_ptr< const sc::event_base >( new Ev( 0, 0, 0 ) ) ); break;
      case 2: s.terminate_processor( h ); break; default: s.destroy_processor( h ); }
    int r = -1; try { s(); } catch ( const Oops & e ) { r = e.id; }
    if ( r != n ) fail( "the constructor's exception does not reach the caller" );
    if ( s() != 1 ) fail( "the operation after the failed construction is not executed" );
    ++st.ops;
  }
}

int main( int argc, char ** argv )
{
  start( argc, argv );
  if ( num( "bfs", 0 ) ) explore< Sys >( Sys::OPS, int( num( "depth", 8 ) ), 3000000 );
  else if ( num( "args", 0 ) )
  {
    Sys s; Args< 63 >::run( *s.s );
    s.log.clear(); s.finish();
    throwingConstructors();
    st.sequences += argRuns; st.states += argRuns; st.sample = current;
  }
  else enumerate< Sys >( Sys::OPS, int( num( "depth", 4 ) ) );
  return done();
}
