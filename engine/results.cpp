// Result objects: every straight-line program of create / copy / destroy /
// return on up to three result objects, executed inside a reaction of a real
// machine; in debug builds an assertion must trip exactly when some result is
// not passed on exactly once, in release builds never.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>

#include <csetjmp>
static long asserts = 0; static std::string lastAssert;
// A misused result leaves the library in an undefined state, so the first
// failing assertion abandons the machine.
static std::jmp_buf escape; static bool canEscape = false;
static void tripped( const char * e ) { ++asserts; lastAssert = e; if ( canEscape ) { canEscape = false; std::longjmp( escape, 1 ); } }
#include <boost/assert.hpp>
namespace boost {
void assertion_failed( char const * e, char const *, char const *, long ) { tripped( e ); }
void assertion_failed_msg( char const * e, char const *, char const *, char const *, long ) { tripped( e ); }
}
#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/mpl/list.hpp>
namespace sc = boost::statechart;
namespace mpl = boost::mpl;

enum Kind { FORWARD, DISCARD, DEFER, TRANSIT, TRANSIT_ACT, TERMINATE, KINDS };
enum Code { NEW, COPY, DESTROY, RET, RETNEW };
struct Ins { int code, arg; };
static std::vector< Ins > prog;

struct Ev : sc::event< Ev > {};
struct Go : sc::event< Go > {};
struct A; struct In; struct B;
struct M : sc::state_machine< M, A >
{
  long uncons; M() : uncons( 0 ) {}
  void unconsumed_event( const sc::event_base & ) { ++uncons; }
  void act( const Ev & ) {}
};
struct A : sc::simple_state< A, M, In > {};
struct B : sc::simple_state< B, M > {};
struct In : sc::simple_state< In, A >
{
  typedef sc::custom_reaction< Ev > reactions;
  sc::result make( int kind )
  {
    switch ( kind )
    {
      case FORWARD: return forward_event();
      case DISCARD: return discard_event();
      case DEFER: return defer_event();
      case TRANSIT: return transit< B >();
      case TRANSIT_ACT: return transit< B >( &M::act, Ev() );
      default: return terminate();
    }
  }
  sc::result react( const Ev & )
  {
    std::unique_ptr< sc::result > v[ 3 ];
    int n = 0;
    for ( size_t i = 0; i < prog.size(); ++i )
      switch ( prog[ i ].code )
      {
        case NEW: v[ n ].reset( new sc::result( make( prog[ i ].arg ) ) ); ++n; break;
        case COPY: v[ n ].reset( new sc::result( *v[ prog[ i ].arg ] ) ); ++n; break;
        case DESTROY: v[ prog[ i ].arg ].reset(); break;
        case RET: return *v[ prog[ i ].arg ];
        case RETNEW: return make( prog[ i ].arg );
      }
    std::abort();
  }
};

static std::string text( const std::vector< Ins > & p )
{
  static const char * kinds[] = { "forward_event()", "discard_event()", "defer_event()", "transit()", "transit(action)", "terminate()" };
  std::string s; int n = 0;
  for ( const Ins & i : p )
    switch ( i.code )
    {
      case NEW: s += "  r" + std::to_string( n++ ) + " = " + kinds[ i.arg ] + "\n"; break;
      case COPY: s += "  r" + std::to_string( n++ ) + " = copy of r" + std::to_string( i.arg ) + "\n"; break;
      case DESTROY: s += "  destroy r" + std::to_string( i.arg ) + "\n"; break;
      case RET: s += "  return r" + std::to_string( i.arg ) + "\n"; break;
      default: s += std::string( "  return " ) + kinds[ i.arg ] + "\n";
    }
  return s;
}
static void fail( const std::string & w ) { printf( "%s\nreaction:\n%s", w.c_str(), text( prog ).c_str() ); exit( 1 ); }

static long programs = 0, misuses = 0, correct = 0, executed = 0;

static void execute()
{
  // oracle: every result has one owner at a time
  bool full[ 3 ] = { false, false, false }, gone[ 3 ] = { false, false, false }; int kind[ 3 ]; int n = 0; long bad = 0; int outcome = -1; bool left = false;
  for ( const Ins & i : prog )
    switch ( i.code )
    {
      case NEW: full[ n ] = true; kind[ n ] = i.arg; left = left || i.arg >= TRANSIT; ++n; break;
      case COPY: bad += !full[ i.arg ]; full[ n ] = full[ i.arg ]; kind[ n ] = kind[ i.arg ]; full[ i.arg ] = false; ++n; break;
      case DESTROY: bad += full[ i.arg ]; gone[ i.arg ] = true; break;
      case RET: bad += !full[ i.arg ]; outcome = kind[ i.arg ]; full[ i.arg ] = false; break;
      default: outcome = i.arg;
    }
  for ( int i = 0; i < n; ++i ) bad += !gone[ i ] && full[ i ];
  ++programs;
#ifdef NDEBUG
  if ( bad ) return;
#endif
  M * pm = new M; M & m = *pm; m.initiate();
  long before = asserts;
  if ( setjmp( escape ) == 0 ) { canEscape = true; m.process_event( Ev() ); }
  canEscape = false;
  long got = asserts - before;
  ++executed;
#ifdef NDEBUG
  if ( got ) fail( "an assertion trips in a release build: " + lastAssert );
#else
  if ( bad && !got ) fail( "a result that is lost or used twice goes unnoticed" );
  if ( !bad && got ) fail( "correct use trips an assertion: " + lastAssert );
#endif
  if ( bad ) { ++misuses; return; }       // (the machine is abandoned)
  ++correct;
  bool inA = m.state_cast< const In * >() != 0, inB = m.state_cast< const B * >() != 0;
  bool ok = outcome == FORWARD ? inA && m.uncons == 1 : outcome == DISCARD || outcome == DEFER ? inA && m.uncons == 0 :
    outcome == TERMINATE ? m.terminated() && m.uncons == 0 : inB && !inA && m.uncons == 0;
  if ( !ok ) fail( "the machine does not do what the returned result says" );
  m.terminate();
  if ( asserts != before ) fail( "an assertion trips at termination: " + lastAssert );
  delete pm;
}

// after transit() or terminate() the state is gone: only result objects may still be used
static void walk( int depth, int n, bool left, unsigned dead )
{
  auto with = [&]( Ins i, int n2, bool left2, unsigned dead2, bool end )
  {
    prog.push_back( i );
    if ( end ) execute(); else walk( depth - 1, n2, left2, dead2 );
    prog.pop_back();
  };
  if ( !left ) for ( int k = 0; k < KINDS; ++k ) with( Ins{ RETNEW, k }, n, left, dead, true );
  for ( int i = 0; i < n; ++i ) if ( !( dead >> i & 1 ) ) with( Ins{ RET, i }, n, left, dead, true );
  if ( depth <= 1 ) return;
  if ( n < 3 && !left ) for ( int k = 0; k < KINDS; ++k ) with( Ins{ NEW, k }, n + 1, left || k >= TRANSIT, dead, false );
  for ( int i = 0; i < n; ++i ) if ( !( dead >> i & 1 ) )
  {
    if ( n < 3 ) with( Ins{ COPY, i }, n + 1, left, dead, false );
    with( Ins{ DESTROY, i }, n, left, dead | 1u << i, false );
  }
}

// declared reactions produce and pass on exactly one result by themselves
struct D0; struct D1; struct DI;
struct DM : sc::state_machine< DM, D0 > { void act( const Ev & ) {} };
struct E2 : sc::event< E2 > {}; struct E3 : sc::event< E3 > {}; struct E4 : sc::event< E4 > {}; struct E5 : sc::event< E5 > {};
struct D0 : sc::simple_state< D0, DM, DI >
{
  typedef mpl::list< sc::transition< Ev, D1 >, sc::deferral< E2 >, sc::termination< E3 >, sc::in_state_reaction< E5 > > reactions;
};
struct DI : sc::simple_state< DI, D0 > { typedef mpl::list< sc::custom_reaction< E4 >, sc::custom_reaction< Ev > > reactions;
  sc::result react( const E4 & ) { return discard_event(); } sc::result react( const Ev & ) { return forward_event(); } };
struct D1 : sc::simple_state< D1, DM > { typedef mpl::list< sc::transition< Ev, D0, DM, &DM::act >, sc::deferral< E4 >, sc::in_state_reaction< E2 > > reactions; };

static long declared = 0;
static void declaredWalk( std::vector< int > & h, int depth )
{
  DM m; m.initiate(); long before = asserts;
  for ( int k : h ) switch ( k ) { case 0: m.process_event( Ev() ); break; case 1: m.process_event( E2() ); break; case 2: m.process_event( E3() ); break;
    case 3: m.process_event( E4() ); break; case 4: m.process_event( E5() ); break; default: m.initiate(); }
  m.terminate(); ++declared; ++executed;
  if ( asserts != before ) { prog.clear(); std::string s; for ( int k : h ) s += std::to_string( k ) + " "; fail( "correct use trips an assertion: " + lastAssert + " after events " + s ); }
  if ( depth ) for ( int k = 0; k < 6; ++k ) { h.push_back( k ); declaredWalk( h, depth - 1 ); h.pop_back(); }
}

int main( int argc, char ** argv )
{
  int depth = 5;
  for ( int i = 1; i < argc; ++i ) if ( !strncmp( argv[ i ], "depth=", 6 ) ) depth = atoi( argv[ i ] + 6 );
  walk( depth, 0, false, 0 );
  std::vector< int > h; declaredWalk( h, depth );
  printf( "{\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"programs\":%ld,\"misuses\":%ld,\"correct\":%ld,\"declared_histories\":%ld,\"sample\":\"r0 = discard_event(); r1 = copy of r0; destroy r0; return r1\"}\n",
    programs, executed, correct + misuses, programs, misuses, correct, declared );
}
