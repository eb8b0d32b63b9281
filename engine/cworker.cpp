// C17: threads that queue work, run and terminate a worker, under every schedule
#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/event_base.hpp>
#include <boost/statechart/processor_container.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <vector>
#include "conc.hpp"
namespace sc = boost::statechart;
#ifdef USE_SCHEDULER
typedef sc::fifo_scheduler<> Worker;
#else
typedef sc::fifo_worker<> Worker;
#endif

enum { MAXI = 64 };
// what happened, in the order of the controlled schedule
struct ItemLog { int queueBegin, queueEnd, runBegin, runEnd, producer, seq, runs; };
static ItemLog items[ MAXI ]; static int nitems, clock_; static int termBegin, termEnd, terms; static int produced[ 8 ];
struct RunLog { int begin, end; long limit, count; bool terminatedAfter; int executed; bool threw; };
static RunLog runs_[ 64 ]; static int nruns;
static int running;                  // the item being executed
static int inRun;                    // runs in progress

CONC_QUIET static void logReset()
{
  for ( ItemLog & l : items ) l = ItemLog(); nitems = 0; clock_ = 0; termBegin = termEnd = -1; terms = 0; running = -1; inRun = 0; nruns = 0; for ( int & p : produced ) p = 0;
}
CONC_QUIET static int logQueueBegin()
{
  conc::mark( true );
  int t = conc::self() + 1, i = t * 8 + produced[ t ]; if ( i >= MAXI ) conc::fail( "too many items" ); if ( i >= nitems ) nitems = i + 1; items[ i ] = ItemLog{ ++clock_, -1, -1, -1, t, produced[ t ]++, 0 };
  conc::note( "queue item " + std::to_string( i ) ); return i;
}
CONC_QUIET static void logQueueEnd( int i ) { conc::mark( false ); items[ i ].queueEnd = ++clock_; }
CONC_QUIET static void logRun( int i )
{
  conc::note( "item " + std::to_string( i ) + " runs" );
  if ( running >= 0 ) conc::fail( "two items run at the same time" );
  if ( ++items[ i ].runs > 1 ) conc::fail( "item executed twice" );
  if ( !inRun ) conc::fail( "item executed outside of the worker's loop" );
  items[ i ].runBegin = ++clock_; running = i; ++runs_[ nruns - 1 ].executed;
}
CONC_QUIET static void logRunEnd( int i ) { running = -1; conc::mark( true ); items[ i ].runEnd = ++clock_; }
CONC_QUIET static void logTerm( bool begin ) { conc::mark( begin ); if ( begin ) { conc::note( "terminate" ); ++terms; if ( termBegin < 0 ) termBegin = ++clock_; } else if ( termEnd < 0 ) termEnd = ++clock_; }
CONC_QUIET static void logLoop( long limit ) { conc::mark( true ); conc::note( "run, limit " + std::to_string( limit ) ); if ( nruns == 64 ) conc::fail( "too many runs" ); runs_[ nruns++ ] = RunLog{ ++clock_, -1, limit, 0, false, 0, false }; ++inRun; }
CONC_QUIET static void logLoopEnd( long n, bool t )
{
  RunLog & r = runs_[ nruns - 1 ]; r.end = ++clock_; r.count = n; r.terminatedAfter = t; --inRun;
  conc::note( "run returns " + std::to_string( n ) );
}
CONC_QUIET static int executedBy( int upTo ) { int n = 0; for ( int i = 0; i < nitems; ++i ) if ( items[ i ].runBegin > 0 && items[ i ].runBegin <= upTo ) ++n; return n; }

static int * datas[ MAXI ];
static Worker * w; static bool blocking;
enum Mode { PLAIN, QUEUES, TERMS, THROWS };
struct Oops {};
CONC_QUIET static void keep( int i, int * d ) { datas[ i ] = d; }
static void put( int mode, int payload );
struct Item
{
  int id, mode; int * data; long big[ 4 ];          // too big for boost::function's own buffer
  Item( int i, int m, int * d ) : id( i ), mode( m ), data( d ) { big[ 0 ] = big[ 3 ] = i; }
  void operator()() const
  {
    logRun( id );
    if ( big[ 3 ] != id || *data != id * 3 + 1 ) conc::fail( "an item does not see what its producer wrote before queuing it" );
    *data = -id;                                         // the producer must be done with it
    if ( mode == QUEUES ) put( PLAIN, 0 );
    if ( mode == TERMS ) { logTerm( true ); w->terminate(); logTerm( false ); }
    delete data;
    logRunEnd( id );
    if ( mode == THROWS ) throw Oops();
  }
};
static void put( int mode, int byRef )
{
  int i = logQueueBegin(); int * d = new int( 0 ); *d = i * 3 + 1; keep( i, d );
  if ( byRef ) { Worker::work_item it = Item( i, mode, d ); w->queue_work_item( it ); if ( !it.empty() ) conc::fail( "queue_work_item( work_item & ) does not take the item" ); }
  else w->queue_work_item( Item( i, mode, d ) );
  logQueueEnd( i );
}
CONC_QUIET static long logThrow() { runs_[ nruns - 1 ].threw = true; conc::note( "exception arrives" ); return runs_[ nruns - 1 ].executed; }
static void loop( unsigned long limit )
{
  logLoop( long( limit ) );
  unsigned long n = 0;
  for ( ;; )
    try { n += ( *w )( limit ? limit - n : 0 ); break; }
    catch ( const Oops & ) { n = logThrow(); if ( limit && n >= limit ) break; }
  logLoopEnd( long( n ), w->terminated() );
}

// a scenario is a list of programs, one per thread, e.g. "Bww,ppp,t" ; the first
// character B/N: blocking worker or not. Per thread: p/r queue (copy/reference),
// q queue an item that queues, k queue an item that terminates, x queue one that throws,
// t terminate, w run without limit, 1..9 run with that limit, y: yield,
// L run non-blocking loops until terminated (bounded)
struct S : conc::Scenario
{
  std::string def; std::vector< std::string > prog;
  explicit S( const std::string & d ) : def( d )
  {
    std::string cur; for ( size_t i = 1; i < d.size(); ++i ) if ( d[ i ] == ',' ) { prog.push_back( cur ); cur.clear(); } else cur += d[ i ];
    prog.push_back( cur );
  }
  int threads() { return int( prog.size() ); }
  void setup() { logReset(); blocking = def[ 0 ] == 'B'; w = new Worker( blocking ); }
  void body( int t )
  {
    const char * p = prog[ t ].c_str();
    for ( ; *p; ++p )
      switch ( *p )
      {
        case 'p': put( PLAIN, 0 ); break;
        case 'r': put( PLAIN, 1 ); break;
        case 'q': put( QUEUES, 1 ); break;
        case 'k': put( TERMS, 1 ); break;
        case 'x': put( THROWS, 1 ); break;
        case 't': logTerm( true ); w->terminate(); logTerm( false ); break;
        case 'w': loop( 0 ); break;
        default: loop( *p - '0' );
      }
  }
  // a blocked worker is fine if nothing is left to do for it
  CONC_QUIET bool mayBlock()
  {
    if ( !blocking || !inRun || running >= 0 || terms ) return false;
    for ( int i = 1; i < int( prog.size() ); ++i ) if ( !conc::finished( i ) ) return false;
    for ( int i = 0; i < nitems; ++i ) if ( items[ i ].queueBegin && !items[ i ].runs ) return false;
    return true;
  }
  CONC_QUIET void finish( bool blocked )
  {
    int total = 0;
    for ( int i = 0; i < nitems; ++i )
    {
      total += items[ i ].runs;
      for ( int j = 0; j < nitems; ++j )
      {
        // j queued completely before i: j first
        if ( items[ j ].queueEnd > 0 && items[ j ].queueEnd < items[ i ].queueBegin && items[ i ].runs && ( !items[ j ].runs || items[ j ].runBegin > items[ i ].runBegin ) )
          conc::fail( "item " + std::to_string( i ) + " overtakes item " + std::to_string( j ) );
      }
      if ( items[ i ].runs && termEnd >= 0 && items[ i ].queueBegin > termEnd ) conc::fail( "an item queued after termination runs" );
    }
    if ( nruns && !blocked )
    {
      bool terminatedSeen = false;
      for ( int k = 0; k < nruns; ++k )
      {
        RunLog & r = runs_[ k ];
        if ( terminatedSeen && r.count != 0 ) conc::fail( "a terminated worker executes items" );
        if ( terminatedSeen && !r.terminatedAfter ) conc::fail( "a terminated worker is alive again" );
        bool byLimit = r.limit && r.count == r.limit;
        if ( r.limit && r.count > r.limit ) conc::fail( "more items executed than asked for" );
        // the termination itself counts as an item
        int want = r.executed + ( r.terminatedAfter && !terminatedSeen ? 1 : 0 );
        if ( r.count != want ) conc::fail( "the loop reports " + std::to_string( r.count ) + " items, executed were " + std::to_string( want ) );
        if ( !byLimit && !r.terminatedAfter )
        {
          if ( blocking ) conc::fail( "a waiting worker returns although it is not terminated and the limit is not reached" );
          // queue must have been empty at some time after the last item of this run
          int lastEnd = r.begin;
          for ( int i = 0; i < nitems; ++i ) if ( items[ i ].runEnd > lastEnd && items[ i ].runEnd < r.end ) lastEnd = items[ i ].runEnd;
          for ( int i = 0; i < nitems; ++i )
            if ( items[ i ].queueEnd > 0 && items[ i ].queueEnd < lastEnd && !( items[ i ].runs && items[ i ].runBegin < r.end ) )
              conc::fail( "the worker returns although item " + std::to_string( i ) + " is queued" );
          if ( termEnd >= 0 && termEnd < lastEnd ) conc::fail( "the worker returns although its termination is queued" );
        }
        if ( r.terminatedAfter )
        {
          if ( !terms ) conc::fail( "terminated without having been asked to" );
          if ( !terminatedSeen )
            for ( int i = 0; i < nitems; ++i )
              if ( items[ i ].queueEnd > 0 && items[ i ].queueEnd < termBegin && !items[ i ].runs ) conc::fail( "item " + std::to_string( i ) + ", queued before the termination, was dropped" );
          terminatedSeen = true;
        }
      }
    }
    if ( blocked ) return;
    destroy();
  }
  void destroy();
};
CONC_QUIET static void release() { for ( int i = 0; i < nitems; ++i ) if ( items[ i ].queueBegin && !items[ i ].runs ) delete datas[ i ]; }
void S::destroy()
{
  // items that were never executed still own their data
  delete w;
  release();
  w = 0;
}
int main( int argc, char ** argv ) { return conc::main( argc, argv, []( const std::string & n ) -> conc::Scenario * { return new S( n ); } ); }
