// C18: every operation sequence on a worker (or scheduler) in one thread.
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/event_base.hpp>
#include <boost/statechart/processor_container.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <deque>
#include "seq.hpp"
using namespace seq;
namespace sc = boost::statechart;

#ifdef CUSTOM_ALLOC
static long allocated = 0;
template< class T > struct Alloc
{
  typedef T value_type; template< class U > struct rebind { typedef Alloc< U > other; };
  Alloc() {} template< class U > Alloc( const Alloc< U > & ) {}
  T * allocate( size_t n, const void * = 0 ) { ++allocated; return static_cast< T * >( ::operator new( n * sizeof( T ) ) ); }
  void deallocate( T * p, size_t ) { --allocated; ::operator delete( p ); }
};
template< class T, class U > bool operator==( const Alloc< T > &, const Alloc< U > & ) { return true; }
template< class T, class U > bool operator!=( const Alloc< T > &, const Alloc< U > & ) { return false; }
typedef sc::fifo_worker< Alloc< sc::none > > Worker;
typedef sc::fifo_scheduler< Worker, Alloc< sc::none > > Scheduler;
#else
typedef sc::fifo_worker<> Worker;
typedef sc::fifo_scheduler<> Scheduler;
#endif
#ifdef USE_SCHEDULER
typedef Scheduler Front;
#else
typedef Worker Front;
#endif

struct Sys;
static Sys * sys = 0;
static long live = 0;
struct Oops { int id; };
enum Kind { PLAIN, QUEUES, THROWS, TERMS, NESTED, QUEUES2, KINDS };

struct Item
{
  int kind, id;
  Item( int k, int i ) : kind( k ), id( i ) { ++live; }
  Item( const Item & o ) : kind( o.kind ), id( o.id ) { ++live; }
  ~Item() { --live; }
  void operator()() const;
};

struct Sys
{
  Front * w; int next; bool blocking;
  std::vector< std::pair< int, int > > ran;            // observed: kind, id
  // model
  struct M { int kind, id; };
  std::deque< M > q; bool term; int mnext; std::vector< std::pair< int, int > > mran;

  Sys() : next( 0 ), blocking( num( "blocking", 0 ) != 0 ), term( false ), mnext( 0 )
  {
#ifdef BOOST_HAS_THREADS
    w = new Front( blocking );
#else
    w = new Front();
#endif
    sys = this;
  }
  static const char * kindName( int k ) { static const char * n[] = { "plain", "queues-one", "throws", "terminates", "runs-worker(1)", "queues-two" }; return n[ k ]; }
  enum { Q0 = 0, QREF = KINDS, QEMPTY, QEMPTYREF, TERM, R0, R1, R2, RMAX, BATCH, R7, OPS };
  std::string name( int o ) const
  {
    if ( o < QREF ) return std::string( "queue_work_item( " ) + kindName( o ) + " )";
    switch ( o ) { case QREF: return "queue_work_item( plain ) by reference"; case QEMPTY: return "queue_work_item( const empty )"; case QEMPTYREF: return "queue_work_item( empty ) by reference";
      case TERM: return "terminate()"; case R0: return "run()"; case R1: return "run( 1 )"; case R2: return "run( 2 )"; case R7: return "run( 7 )"; case BATCH: return "queue 21 items"; default: return "run( max )"; }
  }
  static unsigned long limit( int o ) { return o == R0 ? 0 : o == R1 ? 1 : o == R2 ? 2 : o == R7 ? 7 : ~0ul; }

  // model of the loop; returns executed count, -1 - id if exception id escapes, -1000000: would block
  struct Escape { int id; }; struct Block {};
  static void mexec( Sys & s, M m )
  {
    if ( m.kind == KINDS ) { s.term = true; return; }
    s.mran.push_back( std::make_pair( m.kind, m.id ) );
    switch ( m.kind )
    {
      case QUEUES: { M n = { PLAIN, s.mnext++ }; s.q.push_back( n ); break; }
      case QUEUES2: { M n = { THROWS, s.mnext++ }; s.q.push_back( n ); M k = { QUEUES, s.mnext++ }; s.q.push_back( k ); break; }
      case THROWS: throw Escape{ m.id };
      case TERMS: { M n = { KINDS, -1 }; s.q.push_back( n ); break; }
      case NESTED: { unsigned long r = mrun( s, 1 ); s.mran.push_back( std::make_pair( 100, int( r ) ) ); break; }
    }
  }
  static unsigned long mrun( Sys & s, unsigned long lim )
  {
    unsigned long n = 0;
    while ( !s.term && ( lim == 0 || n < lim ) )
    {
      if ( s.q.empty() ) { if ( s.blocking ) throw Block(); return n; }
      M m = s.q.front(); s.q.pop_front();
      mexec( s, m );
      ++n;
    }
    return n;
  }
  bool enabled( int o )
  {
    if ( o < R0 || o == BATCH || !blocking ) return true;
    // would it wait for ever?
    std::deque< M > q2 = q; bool t2 = term; int n2 = mnext; std::vector< std::pair< int, int > > r2 = mran;
    bool ok = true;
    try { mrun( *this, limit( o ) ); } catch ( const Escape & ) {} catch ( const Block & ) { ok = false; }
    q = q2; term = t2; mnext = n2; mran = r2;
    return ok;
  }
  void apply( int o )
  {
    if ( o < QREF )
    {
      { Item it( o, next++ ); Worker::work_item f( it ); const Worker::work_item & c = f; w->queue_work_item( c ); if ( f.empty() ) fail( "queuing a const item empties it" ); }
      q.push_back( M{ o, mnext++ } );
    }
    else if ( o == QREF )
    {
      Worker::work_item f( Item( PLAIN, next++ ) );
      w->queue_work_item( f );
      if ( !f.empty() ) fail( "queuing an item by reference does not take it over" );
      q.push_back( M{ PLAIN, mnext++ } );
    }
    else if ( o == QEMPTY ) w->queue_work_item( Worker::work_item() );
    else if ( o == QEMPTYREF ) { Worker::work_item f; w->queue_work_item( f ); }
    else if ( o == TERM ) { w->terminate(); q.push_back( M{ KINDS, -1 } ); }
    else if ( o == BATCH )
      for ( int i = 0; i < 21; ++i )
      {
        int k = i == 8 ? QUEUES : i == 13 ? THROWS : i == 17 ? NESTED : PLAIN;
        Worker::work_item f( Item( k, next++ ) );
        w->queue_work_item( f );
        q.push_back( M{ k, mnext++ } );
      }
    else
    {
      long got, want;
      try { got = long( ( *w )( limit( o ) ) ); } catch ( const Oops & e ) { got = -1 - e.id; }
      try { want = long( mrun( *this, limit( o ) ) ); } catch ( const Escape & e ) { want = -1 - e.id; }
      if ( got != want ) fail( "run returned " + text( got ) + ", expected " + text( want ) );
    }
    compare();
  }
  static std::string text( long v ) { return v < 0 ? "by exception of item " + std::to_string( -1 - v ) : std::to_string( v ); }
  // n items at once, then one run with a limit and one without
  void many( long n, unsigned long lim )
  {
    current = "  queue " + std::to_string( n ) + " items\n  run( " + std::to_string( lim ) + " )\n";
    for ( long i = 0; i < n; ++i )
    {
      Worker::work_item f( Item( PLAIN, next++ ) );
      w->queue_work_item( f );
      q.push_back( M{ PLAIN, mnext++ } );
    }
    w->terminate(); q.push_back( M{ KINDS, -1 } );
    for ( int round = 0; round < 2; ++round )
    {
      long got = long( ( *w )( round ? 0 : lim ) ), want = long( mrun( *this, round ? 0 : lim ) );
      if ( got != want ) fail( "run returned " + text( got ) + ", expected " + text( want ) );
      if ( ran != mran ) fail( "not the queued items in order" );
      compare(); ++st.ops;
    }
    finish();
    ++st.sequences; ++st.states;
  }
  void compare()
  {
    if ( ran != mran )
    {
      std::string s = "executed items (kind/id):";
      for ( auto & r : ran ) s += " " + std::to_string( r.first ) + "/" + std::to_string( r.second );
      s += "; expected:"; for ( auto & r : mran ) s += " " + std::to_string( r.first ) + "/" + std::to_string( r.second );
      fail( s );
    }
    if ( w->terminated() != term ) fail( std::string( "terminated() is " ) + ( term ? "false" : "true" ) );
    long items = 0; for ( const M & m : q ) items += m.kind != KINDS;
    if ( live != items ) fail( std::to_string( live ) + " item objects alive, expected " + std::to_string( items ) );
  }
  void finish()
  {
    delete w; w = 0;
    if ( live != 0 ) fail( "items survive the worker" );
#ifdef CUSTOM_ALLOC
    if ( allocated != 0 ) fail( "allocator blocks survive the worker" );
#endif
  }
  bool bounded() const { return int( q.size() ) <= num( "queue", 4 ); }
  std::string key() const
  {
    std::string k( 1, char( '0' + term ) );
    for ( const M & m : q ) k += char( 'a' + m.kind );
    return k;
  }
};

void Item::operator()() const
{
  sys->ran.push_back( std::make_pair( kind, id ) );
  switch ( kind )
  {
    case QUEUES: sys->w->queue_work_item( Worker::work_item( Item( PLAIN, sys->next++ ) ) ); break;
    case QUEUES2: { int a = sys->next++, b = sys->next++; Worker::work_item x( Item( THROWS, a ) ), y( Item( QUEUES, b ) ); sys->w->queue_work_item( x ); sys->w->queue_work_item( y ); break; }
    case THROWS: throw Oops{ id };
    case TERMS: sys->w->terminate(); break;
    case NESTED: { unsigned long r = ( *sys->w )( 1 ); sys->ran.push_back( std::make_pair( 100, int( r ) ) ); break; }
  }
}

int main( int argc, char ** argv )
{
  start( argc, argv );
  if ( num( "wide", 0 ) )
  {
    for ( long n : { 127l, 128l, 255l, 256l, 257l, 32768l, 65535l, 65536l, 65537l } )
      for ( unsigned long lim : { 0ul, 1ul, 255ul, 256ul, 257ul, 65536ul, (unsigned long)n - 1, (unsigned long)n, (unsigned long)n + 1, 1ul << 32, ( 1ul << 32 ) + 1, ~0ul } ) Sys().many( n, lim );
    return done();
  }
  int ops = num( "batch", 0 ) ? Sys::OPS : Sys::BATCH;
  if ( num( "bfs", 0 ) ) explore< Sys >( ops, int( num( "depth", 8 ) ), 2000000 );
  else enumerate< Sys >( ops, int( num( "depth", 5 ) ) );
  return done();
}
