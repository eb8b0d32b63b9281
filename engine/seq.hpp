// Exhaustive enumeration of operation sequences: every sequence up to a depth
// is executed from scratch on the real code and compared with a model.
#ifndef VERIF_SEQ_HPP
#define VERIF_SEQ_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>

namespace seq {
struct Stats { long sequences, ops, states; std::string sample; bool complete; };
static Stats st = { 0, 0, 0, "", true };
static std::map< std::string, std::string > args;
static std::string current;              // the sequence being executed, for crash reports
static std::vector< std::string > log_;

inline long num( const char * n, long d ) { return args.count( n ) ? atol( args[ n ].c_str() ) : d; }
inline double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }
static double started;
inline bool late() { if ( now() - started > num( "budget", 600 ) ) { st.complete = false; return true; } return false; }

[[noreturn]] inline void fail( const std::string & what )
{
  printf( "%s\noperations:\n%s", what.c_str(), current.c_str() ); fflush( stdout );
  _exit( 1 );
}
inline void onSignal( int s )
{
  printf( "crash or hang (signal %d)\noperations:\n%s", s, current.c_str() ); fflush( stdout );
  _exit( 1 );
}
static volatile long lastSeq = -1; static volatile int stuck = 0;
inline void onTick( int )
{
  if ( st.sequences == lastSeq ) { if ( ++stuck >= 3 ) onSignal( SIGALRM ); } else stuck = 0;
  lastSeq = st.sequences;
}
inline void start( int argc, char ** argv )
{
  for ( int i = 1; i < argc; ++i ) { std::string s = argv[ i ]; size_t q = s.find( '=' ); args[ s.substr( 0, q ) ] = q == std::string::npos ? "1" : s.substr( q + 1 ); }
  signal( SIGSEGV, onSignal ); signal( SIGABRT, onSignal ); signal( SIGBUS, onSignal ); signal( SIGFPE, onSignal ); signal( SIGILL, onSignal );
  signal( SIGALRM, onTick );
  itimerval it = { { 5, 0 }, { 5, 0 } }; setitimer( ITIMER_REAL, &it, 0 );
  started = now();
}
inline int done()
{
  std::string s; for ( char c : st.sample ) s += c == '\n' ? ';' : c == '"' || c == '\\' ? '\'' : c;
  printf( "{\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"complete\":%s,\"sample\":\"%s\"}\n", st.states, st.ops, st.sequences, st.complete ? "true" : "false", s.c_str() );
  return 0;
}

// System: reset(); names() ; enabled(op) on the model; apply(op): executes on
// both and compares; finish(): destroys and compares. key(): model state.
template< class System > void enumerate( int alphabet, int depth )
{
  // depth-first, every sequence from scratch; split over processes by the first two operations
  long parts = num( "parts", 1 ), part = num( "part", 0 ), idx = 0;
  std::vector< int > path;
  struct Rec
  {
    static bool run( const std::vector< int > & p )
    {
      // executes p; false if an operation is not enabled
      System s; current.clear();
      for ( size_t i = 0; i < p.size(); ++i )
      {
        if ( !s.enabled( p[ i ] ) ) { s.finish(); return false; }
        current += "  " + s.name( p[ i ] ) + "\n";
        s.apply( p[ i ] ); ++st.ops;
      }
      s.finish();
      ++st.sequences;
      return true;
    }
  };
  std::vector< std::vector< int > > stack( 1 );
  while ( !stack.empty() )
  {
    std::vector< int > p = stack.back(); stack.pop_back();
    if ( p.size() == 2 && ( idx++ % parts ) != part ) continue;
    if ( ( st.sequences & 1023 ) == 0 && late() ) return;
    if ( !p.empty() && !Rec::run( p ) ) continue;
    if ( int( p.size() ) == depth ) { if ( st.sample.empty() && st.sequences > 1000 ) st.sample = current; continue; }
    for ( int a = alphabet - 1; a >= 0; --a ) { p.push_back( a ); stack.push_back( p ); p.pop_back(); }
  }
  st.states += st.sequences;
}

// breadth-first with merging of equal model states
template< class System > void explore( int alphabet, int depth, size_t maxStates )
{
  std::unordered_set< std::string > seen;
  std::vector< std::vector< int > > frontier( 1 ), next;
  for ( int d = 0; d < depth && !frontier.empty(); ++d )
  {
    next.clear();
    for ( const std::vector< int > & p : frontier )
      for ( int a = 0; a < alphabet; ++a )
      {
        if ( ( st.sequences & 1023 ) == 0 && late() ) return;
        System s; current.clear(); bool ok = true;
        for ( int o : p ) { current += "  " + s.name( o ) + "\n"; s.apply( o ); ++st.ops; }
        if ( s.enabled( a ) )
        {
          current += "  " + s.name( a ) + "\n";
          s.apply( a ); ++st.ops;
          if ( s.bounded() && seen.insert( s.key() ).second && seen.size() < maxStates ) { next.push_back( p ); next.back().push_back( a ); st.sample = current; }
          if ( seen.size() >= maxStates ) st.complete = false;
        }
        else ok = false;
        s.finish();
        if ( ok ) ++st.sequences;
      }
    frontier.swap( next );
  }
  st.states += long( seen.size() );
}
} // namespace seq
#endif
