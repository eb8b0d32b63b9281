// C20: asynchronous machines on two schedulers in two threads plus client threads, under every schedule
#include <boost/statechart/event.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/mpl/list.hpp>
#include <vector>
#include "conc.hpp"
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
typedef sc::fifo_scheduler<> Sched;

enum { MACHINES = 3, MSGS = 64 };
static const int schedOf[ MACHINES ] = { 0, 1, 0 };
static Sched * sched[ 2 ]; static Sched::processor_handle * handle[ MACHINES ];

// ---- log -----------------------------------------------------------------------
struct Sent { int sender, to, seq, key; bool used; int processed, order; };
// sender: 0..3 client thread, 10+m: machine; key: identity carried by the event
static Sent sent[ MSGS ]; static int nsent; static int perSender[ 32 ][ MACHINES ];
static int reacting[ 2 ], schedThread[ 2 ], alive[ MACHINES ], built[ MACHINES ], destroyAsked[ MACHINES ], termAsked[ 2 ], orders, initiated[ MACHINES ], termMachine[ MACHINES ];
static bool main_;
CONC_QUIET static void logReset()
{
  nsent = orders = 0; for ( auto & a : perSender ) for ( int & x : a ) x = 0; for ( Sent & s : sent ) s = Sent();
  for ( int i = 0; i < 2; ++i ) { reacting[ i ] = 0; schedThread[ i ] = -1; termAsked[ i ] = 0; } for ( int i = 0; i < MACHINES; ++i ) alive[ i ] = built[ i ] = destroyAsked[ i ] = initiated[ i ] = termMachine[ i ] = 0;
  main_ = false;
}
CONC_QUIET static int logSend( int sender, int to )
{
  // identity independent of the schedule: per sender and receiver
  int q = perSender[ sender ][ to ]++; int n = nsent++; if ( n >= MSGS ) conc::fail( "too many events" );
  sent[ n ] = Sent{ sender, to, q, n, true, 0, 0 };
  conc::note( ( sender >= 10 ? "machine " + std::to_string( sender - 10 ) : "client" ) + " sends #" + std::to_string( q ) + " to machine " + std::to_string( to ) ); return n;
}
CONC_QUIET static void enter( int s )
{
  if ( main_ ) return;
  if ( schedThread[ s ] < 0 ) schedThread[ s ] = conc::self();
  if ( schedThread[ s ] != conc::self() || conc::self() != s ) conc::fail( "a processor is used in another thread than its scheduler's" );
  if ( reacting[ s ]++ ) conc::fail( "two processors of one scheduler are active at the same time" );
}
CONC_QUIET static void leave( int s ) { if ( !main_ ) --reacting[ s ]; }
CONC_QUIET static void logBuild( int m ) { enter( schedOf[ m ] ); conc::note( "machine " + std::to_string( m ) + " is created" ); if ( built[ m ]++ ) conc::fail( "machine created twice" ); alive[ m ] = 1; leave( schedOf[ m ] ); }
CONC_QUIET static void logDie( int m ) { enter( schedOf[ m ] ); conc::note( "machine " + std::to_string( m ) + " is destroyed" ); if ( !alive[ m ] ) conc::fail( "machine destroyed twice" ); alive[ m ] = 0; if ( !destroyAsked[ m ] && !main_ ) conc::fail( "machine destroyed although nobody asked for it" ); leave( schedOf[ m ] ); }
CONC_QUIET static void logReact( int m, int n )
{
  enter( schedOf[ m ] );
  if ( n < 0 || n >= nsent || !sent[ n ].used ) conc::fail( "reaction to an event nobody sent" );
  Sent & s = sent[ n ];
  conc::note( "machine " + std::to_string( m ) + " processes #" + std::to_string( s.seq ) + " of " + std::to_string( s.sender ) );
  if ( !alive[ m ] ) conc::fail( "reaction of a destroyed machine" );
  if ( s.to != m ) conc::fail( "event delivered to the wrong machine" );
  if ( s.processed++ ) conc::fail( "event processed twice" );
  s.order = ++orders;
  for ( int i = 0; i < nsent; ++i )
    if ( sent[ i ].sender == s.sender && sent[ i ].to == m && sent[ i ].seq < s.seq && !sent[ i ].processed ) conc::fail( "events of one sender overtake each other or get lost" );
}
CONC_QUIET static void logReacted( int m ) { leave( schedOf[ m ] ); }
CONC_QUIET static void logInit( int m ) { enter( schedOf[ m ] ); initiated[ m ] = 1; leave( schedOf[ m ] ); }
CONC_QUIET static void ask( int * what ) { ++*what; }

// ---- machines ------------------------------------------------------------------------
enum Plan { STAY, PASS, NEW, SELF, BOTH, TERMINATE_SELF, DESTROY_OTHER, TERMINATE_SCHED };
struct Msg : sc::event< Msg >
{
  // a shared event is one object sent several times: one identity per delivery
  mutable int key[ MACHINES ]; int plan; int * payload;
  explicit Msg( int p ) : plan( p ), payload( new int( 77 ) ) { for ( int & k : key ) k = -1; }
  Msg( const Msg & o ) : sc::event< Msg >( o ), plan( o.plan ), payload( new int( *o.payload ) ) { for ( int i = 0; i < MACHINES; ++i ) key[ i ] = o.key[ i ]; }
  ~Msg() { if ( *payload != 77 ) conc::fail( "event destroyed twice" ); *payload = 0; delete payload; }
};
typedef boost::intrusive_ptr< const Msg > MsgPtr;
CONC_QUIET static void setKey( const Msg & e, int to, int n ) { e.key[ to ] = n; }
CONC_QUIET static int getKey( const Msg & e, int m ) { return e.key[ m ]; }

static void post( int sender, int to, const Sched::event_ptr_type & e, const Msg & msg )
{
  setKey( msg, to, logSend( sender, to ) );
  sched[ schedOf[ to ] ]->queue_event( *handle[ to ], e );
}
static void postNew( int sender, int to, int plan )
{
  boost::intrusive_ptr< Msg > e = new Msg( plan );
  post( sender, to, e, *e );
}
struct Toggle : sc::event< Toggle > {};
struct On; struct Off;
struct M : sc::asynchronous_state_machine< M, On, Sched >
{
  typedef sc::asynchronous_state_machine< M, On, Sched > base;
  int id, count, * buffer;
  M( my_context ctx, int i ) : base::my_base( ctx ), id( i ), count( 0 ), buffer( new int( 5 ) ) { logBuild( i ); }
  ~M() { logDie( id ); *buffer = 0; delete buffer; terminate(); }
  void handle( const Msg & e );
};
struct On : sc::state< On, M >
{
  On( my_context c ) : sc::state< On, M >( c ) { logInit( context< M >().id ); }
  typedef mpl::list< sc::custom_reaction< Msg > > reactions;
  sc::result react( const Msg & e ) { context< M >().handle( e ); return transit< Off >(); }
};
struct Off : sc::state< Off, M >
{
  Off( my_context c ) : sc::state< Off, M >( c ) {}
  typedef mpl::list< sc::custom_reaction< Msg > > reactions;
  sc::result react( const Msg & e ) { context< M >().handle( e ); return e.plan == TERMINATE_SELF ? terminate() : discard_event(); }
};
void M::handle( const Msg & e )
{
  if ( *e.payload != 77 ) conc::fail( "event destroyed while it is processed" );
  if ( *buffer != 5 ) conc::fail( "machine is damaged" );
  *buffer = 6; logReact( id, getKey( e, id ) );
  int other = id == 0 ? 1 : 0; ++count;
  if ( &my_scheduler() != sched[ schedOf[ id ] ] ) conc::fail( "wrong scheduler" );
  if ( my_handle().owner_before( *::handle[ id ] ) || ::handle[ id ]->owner_before( my_handle() ) ) conc::fail( "wrong handle" );
  switch ( e.plan )
  {
    case PASS: if ( getKey( e, other ) < 0 ) post( 10 + id, other, e.intrusive_from_this(), e ); break;
    case NEW: postNew( 10 + id, other, STAY ); break;
    case SELF: postNew( 10 + id, id, STAY ); break;
    case BOTH: postNew( 10 + id, other, SELF ); postNew( 10 + id, id, STAY ); break;
    case DESTROY_OTHER: ask( &destroyAsked[ other ] ); sched[ schedOf[ other ] ]->destroy_processor( *::handle[ other ] ); break;
    case TERMINATE_SCHED: ask( &termAsked[ schedOf[ id ] ] ); my_scheduler().terminate(); break;
  }
  if ( *buffer != 6 ) conc::fail( "reaction interrupted" ); *buffer = 5;
  if ( *e.payload != 77 ) conc::fail( "event destroyed while it is processed" );
  logReacted( id );
}

// scenario: mode, then client programs separated by commas
//   q: schedulers wait; run until nothing is left   t: as q, the first client terminates both at its end
//   n: schedulers do not wait and are run twice      s: both machines 0 and 2 exist
// client: digits 0/1/2 plain event to that machine, a/b PASS via 0/1, c/d NEW via 0/1, e/f SELF, g/h BOTH,
//   S one event object to both machines, D/E destroy machine 0/1, T/U terminate machine 0/1, k/l terminate scheduler via machine,
//   x: machine 0 destroys machine 1
struct S : conc::Scenario
{
  char mode; bool third; std::vector< std::string > prog;
  explicit S( const std::string & d ) : mode( d[ 0 ] ), third( d.find( '2' ) != std::string::npos )
  {
    std::string cur; for ( size_t i = 1; i < d.size(); ++i ) if ( d[ i ] == ',' ) { prog.push_back( cur ); cur.clear(); } else cur += d[ i ];
    prog.push_back( cur );
  }
  int threads() { return 2 + int( prog.size() ); }
  void setup()
  {
    logReset();
    for ( int i = 0; i < 2; ++i ) sched[ i ] = new Sched( mode != 'n' );
    for ( int m = 0; m < MACHINES; ++m )
    {
      handle[ m ] = new Sched::processor_handle;
      if ( m == 2 && !third ) continue;
      *handle[ m ] = sched[ schedOf[ m ] ]->create_processor< M, int >( m );
      sched[ schedOf[ m ] ]->initiate_processor( *handle[ m ] );
    }
  }
  void body( int t )
  {
    if ( t < 2 )
    {
      ( *sched[ t ] )(); if ( mode == 'n' ) ( *sched[ t ] )();
      return;
    }
    int me = t - 2;
    for ( char c : prog[ me ] )
      switch ( c )
      {
        case '0': case '1': case '2': postNew( me, c - '0', STAY ); break;
        case 'a': case 'b': postNew( me, c - 'a', PASS ); break;
        case 'c': case 'd': postNew( me, c - 'c', NEW ); break;
        case 'e': case 'f': postNew( me, c - 'e', SELF ); break;
        case 'g': case 'h': postNew( me, c - 'g', BOTH ); break;
        case 'k': case 'l': postNew( me, c - 'k', TERMINATE_SCHED ); break;
        case 'm': case 'n': postNew( me, c - 'm', TERMINATE_SELF ); break;
        case 'x': case 'y': postNew( me, c - 'x', DESTROY_OTHER ); break;
        case 'S': { boost::intrusive_ptr< Msg > e = new Msg( STAY ); post( me, 0, e, *e ); post( me, 1, e, *e ); break; }
        case 'D': case 'E': ask( &destroyAsked[ c - 'D' ] ); sched[ schedOf[ c - 'D' ] ]->destroy_processor( *handle[ c - 'D' ] ); break;
        case 'T': case 'U': ask( &termMachine[ c - 'T' ] ); sched[ schedOf[ c - 'T' ] ]->terminate_processor( *handle[ c - 'T' ] ); break;
      }
    if ( mode == 't' && me == 0 ) for ( int i = 0; i < 2; ++i ) { ask( &termAsked[ i ] ); sched[ i ]->terminate(); }
  }
  CONC_QUIET bool mayBlock()
  {
    if ( mode == 'n' ) return false;
    // a scheduler that was asked to terminate must do so; the others must have nothing left
    for ( int i = 0; i < 2; ++i ) if ( reacting[ i ] || ( termAsked[ i ] && !conc::finished( i ) ) ) return false;
    for ( int i = 0; i < int( prog.size() ); ++i ) if ( !conc::finished( 2 + i ) ) return false;
    for ( int i = 0; i < nsent; ++i )
    {
      int m = sent[ i ].to;
      if ( !sent[ i ].processed && !destroyAsked[ m ] && !termAsked[ schedOf[ m ] ] && !termMachine[ m ] && !selfTerminated( m ) ) return false;
    }
    for ( int m = 0; m < 2; ++m ) if ( destroyAsked[ m ] && !termAsked[ schedOf[ m ] ] && alive[ m ] ) return false;
    return true;
  }
  CONC_QUIET bool selfTerminated( int m )
  {
    for ( const std::string & p : prog ) if ( p.find( m == 0 ? 'm' : 'n' ) != std::string::npos ) return true;
    return false;
  }
  CONC_QUIET void finish( bool blocked )
  {
    if ( blocked ) return;
    if ( mode == 't' )          // everything the terminating client sent before came through
      for ( int i = 0; i < nsent; ++i )
      {
        int m = sent[ i ].to;
        if ( sent[ i ].sender == 0 && !sent[ i ].processed && !destroyAsked[ m ] && termAsked[ schedOf[ m ] ] < 2 && !termMachine[ m ] && !selfTerminated( m ) ) conc::fail( "an event sent before the termination of the scheduler was not processed" );
      }
    main_ = true; destroy();
    for ( int m = 0; m < MACHINES; ++m ) if ( alive[ m ] ) conc::fail( "a machine survives its scheduler" );
  }
  void destroy();
};
void S::destroy()
{
  for ( int m = 0; m < MACHINES; ++m ) delete handle[ m ];
  delete sched[ 0 ]; delete sched[ 1 ];
}
int main( int argc, char ** argv ) { return conc::main( argc, argv, []( const std::string & n ) -> conc::Scenario * { return new S( n ); } ); }
