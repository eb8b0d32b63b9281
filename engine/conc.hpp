// Model checker for multi-threaded code: runs the real code in fibers, controls every
// mutex, condition variable and atomic operation, explores all schedules (dynamic
// partial-order reduction with sleep sets, no preemption bound, bounded spurious
// wake-ups), and checks every execution for data races (vector clocks over all
// instrumented memory accesses), use of freed memory, leaks, deadlocks and hangs.
#ifndef VERIF_CONC_HPP
#define VERIF_CONC_HPP
#include <string>
#define CONC_QUIET __attribute__(( no_sanitize( "thread" ), noinline ))
namespace conc
{
struct Scenario
{
  virtual ~Scenario() {}
  virtual int threads() = 0;
  virtual void setup() = 0;                     // before the threads start
  virtual void body( int t ) = 0;
  virtual bool mayBlock() { return false; }     // called when no thread can run: is that legal here?
  virtual void finish( bool blocked ) = 0;      // after the threads: final checks; blocked: threads still hang in mayBlock() state
};
int  main( int argc, char ** argv, Scenario * ( *make )( const std::string & name ) );
long arg( const char * name, long def );
std::string sarg( const char * name, const char * def );
[[noreturn]] void fail( const std::string & what );
void note( const std::string & what );          // appears in the trace
// real-time history: every order of begins relative to ends is explored
void mark( bool begin );
bool finished( int t );
int  self();                                    // thread number, -1 outside
bool holdsArena( const void * p );
// hooks for the replaced shared_ptr control block
void spPoint( const void * count );             // scheduling point
void spRelease( const void * count );           // happens-before edges
void spAcquire( const void * count );
}
#endif
