#include "conc.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <map>
#include <set>
#include <vector>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <exception>
#include <cxxabi.h>
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals * __cxa_get_globals() noexcept; }

namespace conc
{
enum { MAXT = 7, TIDS = MAXT + 1, STACK = 128 * 1024, ARENA = 1 << 20, MAXSTEPS = 6000, SOLO = 3000 };
enum Kind { START, LOCK, TRYLOCK, UNLOCK, WAIT, RELOCK, SIGNAL, BROADCAST, ALOAD, ARMW, FINAL, YIELD, MARKB, MARKE };
static const char * const kindName[] = { "start", "lock", "try to lock", "unlock", "wait", "return from wait", "notify one", "notify all", "atomic load", "atomic update", "atomic release", "yield", "begin", "end" };
struct Op { Kind kind; int o1, o2; };            // object numbers, -1: none; o2: the mutex of a wait, the condition of a return
struct VC { uint32_t c[ TIDS ]; };
static inline void join( VC & a, const VC & b ) { for ( int i = 0; i < TIDS; ++i ) if ( b.c[ i ] > a.c[ i ] ) a.c[ i ] = b.c[ i ]; }

// ---- objects (mutexes, conditions, atomics), per execution -----------------
struct Obj { const void * addr; char type; int owner; int ownerDepth; VC hb; VC all, wr; std::vector< int > waiters; };
static std::vector< Obj > objs; static std::map< const void *, int > objOf;
struct Fiber
{
  void * sp; char * stack; bool done, started, timed; Op pend; int signalled; long spurious; VC hb; VC dep; void * eh[ 2 ]; int waitCond;
};
static Fiber fib[ MAXT ]; static int nfib = 0, cur = -1; static int choice = 0; static VC mainHb;
static void * mainSp; static void * mainEh[ 2 ];
static Scenario * scen = 0; static bool active = false, inExec = false;
static long spuriousBudget = 1; static bool commute = false;
struct Step { int tid; Op op; uint32_t index; VC dep; };
struct Ev { int tid; Op op; std::string text; };              // what happened, for reports
static std::vector< Ev > trace; static std::string scenName;
struct Node { unsigned enabled, backtrack, done, sleep; Op pend[ MAXT ]; int chosen, choice, nchoices; };
static std::vector< Node > nodes; static std::vector< Step > steps;
static bool full = false; static std::set< uint64_t > outcomes;
static long executions = 0, pruned = 0, transitions = 0, blockedRuns = 0, maxDepth = 0, longRuns = 0; static std::string sample;
static std::map< std::string, std::string > args;
long arg( const char * n, long d ) { return args.count( n ) ? atol( args[ n ].c_str() ) : d; }
std::string sarg( const char * n, const char * d ) { return args.count( n ) ? args[ n ] : std::string( d ); }
int self() { return cur; }
bool finished( int t ) { return fib[ t ].done; }

static std::string opText( const Op & o )
{
  std::string s = kindName[ o.kind ];
  if ( o.o1 >= 0 ) s += std::string( " " ) + ( objs[ o.o1 ].type == 'm' ? "mutex " : objs[ o.o1 ].type == 'c' ? "condition " : "variable " ) + std::to_string( o.o1 );
  if ( o.o2 >= 0 ) s += " (" + std::to_string( o.o2 ) + ")";
  return s;
}
static std::string traceText()
{
  std::string s;
  for ( Ev & t : trace ) s += ( t.tid < 0 ? std::string( "  main: " ) : "  T" + std::to_string( t.tid ) + ": " ) + ( t.text.empty() ? opText( t.op ) : "    " + t.text ) + "\n";
  return s;
}
void note( const std::string & what ) { bool a = active; active = false; trace.push_back( Ev{ cur, Op{ YIELD, -1, -1 }, what } ); active = a; }
[[noreturn]] void fail( const std::string & what )
{
  active = false;
  printf( "%s%s\nscenario: %s\nschedule (%ld executions before):\n%s", what.c_str(), cur >= 0 ? ( " [in thread T" + std::to_string( cur ) + "]" ).c_str() : "", scenName.c_str(), executions, traceText().c_str() );
  fflush( stdout ); _exit( 1 );
}

// ---- memory ------------------------------------------------------------------
static char * arena = 0; static size_t bump[ TIDS ]; static unsigned char * alive = 0; static long liveBlocks = 0;
struct Head { size_t size; uint32_t magic; uint32_t tid; };
bool holdsArena( const void * p ) { return arena && p >= arena && p < arena + size_t( ARENA ) * TIDS; }
static inline int tid() { return cur + 1; }                 // 0: main
static inline VC & myHb() { return cur < 0 ? mainHb : fib[ cur ].hb; }
enum { CELLS = 1 << 15 };
struct Cell { uintptr_t g; uint32_t gen; uint32_t tids; uint8_t wt[ 8 ]; uint32_t w[ 8 ]; struct Row { uint32_t r[ 8 ], ar[ 8 ], aw[ 8 ]; } row[ TIDS ];
  void enter( int t ) { if ( !( tids & ( 1u << t ) ) ) { tids |= 1u << t; memset( &row[ t ], 0, sizeof( Row ) ); } } };      // rows of threads not in tids are undefined
static Cell * cells = 0; static uint32_t gen = 0; static size_t cellsUsed = 0;
static Cell * cell( uintptr_t g )
{
  size_t h = ( g * 0x9E3779B97F4A7C15ull ) >> 49;
  while ( cells[ h ].gen == gen ) { if ( cells[ h ].g == g ) return &cells[ h ]; h = ( h + 1 ) & ( CELLS - 1 ); }
  if ( ++cellsUsed > CELLS * 3 / 4 ) { printf( "race table full\n" ); _exit( 3 ); }
  Cell & c = cells[ h ]; memset( c.w, 0, sizeof c.w ); c.tids = 0; c.g = g; c.gen = gen; return &c;
}
extern "C" char __data_start, _end;
static std::string name( int t ) { return t ? "T" + std::to_string( t - 1 ) : "main"; }
static void access( const void * a, size_t n, bool write )
{
  if ( !active || n == 0 ) return;
  const char * p = static_cast< const char * >( a );
  if ( cur >= 0 && size_t( p - fib[ cur ].stack ) < STACK ) return;          // own stack
  if ( holdsArena( p ) )
  {
    uint64_t all8; if ( n == 8 && ( memcpy( &all8, alive + ( p - arena ), 8 ), all8 == 0x0101010101010101ull ) ) {}
    else for ( size_t i = 0; i < n; ++i ) if ( !alive[ p - arena + i ] ) fail( std::string( write ? "write to" : "read from" ) + " freed or unallocated memory" );
  }
  else if ( p >= &__data_start && p < &_end ) {}
  else
  {
    for ( int i = 0; i < nfib; ++i )
      if ( i != cur && p >= fib[ i ].stack && p < fib[ i ].stack + STACK && ( fib[ i ].done || p < static_cast< char * >( fib[ i ].sp ) ) )
        fail( "access to the dead stack frame of T" + std::to_string( i ) );
    return;
  }
  VC & my = myHb(); int t = tid();
  for ( size_t i = 0; i < n; )
  {
    uintptr_t g = ( uintptr_t( p ) + i ) >> 3; Cell * c = cell( g );
    c->enter( t );
    if ( c->tids == 1u << t )                      // nobody else has been here
    {
      uint32_t now = my.c[ t ];
      if ( n - i >= 8 && ( ( uintptr_t( p ) + i ) & 7 ) == 0 )
      {
        if ( write ) { for ( int b = 0; b < 8; ++b ) c->w[ b ] = now; memset( c->wt, t, 8 ); } else for ( int b = 0; b < 8; ++b ) c->row[ t ].r[ b ] = now;
        i += 8; continue;
      }
      for ( ; i < n && ( ( uintptr_t( p ) + i ) >> 3 ) == g; ++i ) { int b = int( ( uintptr_t( p ) + i ) & 7 ); if ( write ) { c->w[ b ] = now; c->wt[ b ] = uint8_t( t ); } else c->row[ t ].r[ b ] = now; }
      continue;
    }
    for ( ; i < n && ( ( uintptr_t( p ) + i ) >> 3 ) == g; ++i )
    {
      int b = int( ( uintptr_t( p ) + i ) & 7 );
      if ( c->w[ b ] && c->w[ b ] > my.c[ c->wt[ b ] ] ) fail( "data race: " + std::string( write ? "write" : "read" ) + " after an unordered write by " + name( c->wt[ b ] ) );
      for ( int k = 0; k < TIDS; ++k ) if ( k != t && ( c->tids >> k & 1 ) && c->row[ k ].aw[ b ] > my.c[ k ] ) fail( "data race: plain access after an unordered atomic update by " + name( k ) );
      if ( write )
      {
        for ( int k = 0; k < TIDS; ++k ) if ( k != t && ( c->tids >> k & 1 ) && ( c->row[ k ].r[ b ] > my.c[ k ] || c->row[ k ].ar[ b ] > my.c[ k ] ) ) fail( std::string( "data race: write after an unordered read by " ) + name( k ) );
        c->w[ b ] = my.c[ t ]; c->wt[ b ] = uint8_t( t );
      }
      else c->row[ t ].r[ b ] = my.c[ t ];
    }
  }
}
static void * allocate( size_t n )
{
  if ( !active ) { void * p = malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); return p; }
  size_t need = sizeof( Head ) + ( ( n + 15 ) & ~size_t( 15 ) ) + 16;
  int t = tid();
  if ( bump[ t ] + need > ARENA ) { printf( "arena full\n" ); _exit( 3 ); }
  char * q = arena + size_t( ARENA ) * t + bump[ t ]; bump[ t ] += need;
  Head * h = reinterpret_cast< Head * >( q ); h->size = n; h->magic = 0xA11C; h->tid = uint32_t( t );
  memset( alive + ( q + sizeof( Head ) - arena ), 1, n ? n : 1 );
  memset( q + sizeof( Head ), 0xCD, n );
  ++liveBlocks;
  return q + sizeof( Head );
}
static void release( void * p )
{
  if ( !p ) return;
  if ( !holdsArena( p ) ) { free( p ); return; }
  if ( !inExec ) return;
  Head * h = reinterpret_cast< Head * >( static_cast< char * >( p ) - sizeof( Head ) );
  bool a = active;
  if ( h->magic != 0xA11C ) fail( h->magic == 0xF4EE ? "memory freed twice" : "free of something that was not allocated" );
  active = true; access( p, h->size, true ); active = a;          // freeing counts as writing
  memset( alive + ( static_cast< char * >( p ) - arena ), 0, h->size ? h->size : 1 );
  h->magic = 0xF4EE; --liveBlocks;
}

// ---- fibers -----------------------------------------------------------------
extern "C" void conc_switch( void ** from, void * to );
asm( ".text\n.globl conc_switch\nconc_switch:\n"
  "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
  "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
  "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n" );
static void toMain()
{
  int me = cur; void ** g = reinterpret_cast< void ** >( __cxxabiv1::__cxa_get_globals() );
  memcpy( fib[ me ].eh, g, 16 ); memcpy( g, mainEh, 16 ); cur = -1;
  conc_switch( &fib[ me ].sp, mainSp );
}
static void toFiber( int t )
{
  void ** g = reinterpret_cast< void ** >( __cxxabiv1::__cxa_get_globals() );
  memcpy( mainEh, g, 16 ); memcpy( g, fib[ t ].eh, 16 ); cur = t;
  conc_switch( &mainSp, fib[ t ].sp );
}
static void point( Kind k, int o1 = -1, int o2 = -1 ) { fib[ cur ].pend = Op{ k, o1, o2 }; toMain(); }
static void trampoline()
{
  int me = cur;
  active = true;
  try { scen->body( me ); }
  catch ( std::exception & e ) { fail( std::string( "exception leaves the thread: " ) + e.what() ); }
  catch ( ... ) { fail( "exception leaves the thread" ); }
  fib[ me ].done = true; active = false;
  toMain(); abort();
}
static void makeFiber( int t )
{
  Fiber & f = fib[ t ];
  if ( !f.stack ) f.stack = static_cast< char * >( mmap( 0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
  f.done = f.started = f.timed = false; f.signalled = 0; f.spurious = spuriousBudget; f.eh[ 0 ] = f.eh[ 1 ] = 0; f.waitCond = -1;
  f.pend = Op{ START, -1, -1 }; memset( &f.dep, 0, sizeof f.dep );
  f.hb = mainHb; f.hb.c[ t + 1 ] = 1;
  void ** s = reinterpret_cast< void ** >( f.stack + STACK - 64 );      // ret address slot at 16n+8 on entry
  *--s = 0; *--s = reinterpret_cast< void * >( &trampoline );
  for ( int i = 0; i < 6; ++i ) *--s = 0;
  f.sp = s;
}

// ---- objects -------------------------------------------------------------------
static int obj( const void * a, char type )
{
  auto i = objOf.find( a );
  if ( i != objOf.end() ) return i->second;
  Obj o; o.addr = a; o.type = type; o.owner = -2; o.ownerDepth = 0; memset( &o.hb, 0, sizeof o.hb ); memset( &o.all, 0, sizeof o.all ); memset( &o.wr, 0, sizeof o.wr );
  objs.push_back( o ); int n = int( objs.size() ) - 1; objOf[ a ] = n; return n;
}
struct Off { bool a; Off() : a( active ) { active = false; } ~Off() { active = a; } };
static void relHb( int o ) { VC & m = myHb(); join( objs[ o ].hb, m ); ++m.c[ tid() ]; }
static void acqHb( int o ) { join( myHb(), objs[ o ].hb ); }

static int mutexLock( const void * m, bool tryIt )
{
  if ( !inExec ) return 0;
  Off off; int o = obj( m, 'm' );
  if ( cur >= 0 ) point( tryIt ? TRYLOCK : LOCK, o );
  if ( objs[ o ].owner != -2 )
  {
    if ( tryIt ) return EBUSY;
    fail( "lock of a mutex that is held" );
  }
  objs[ o ].owner = cur; acqHb( o );
  return 0;
}
static int mutexUnlock( const void * m )
{
  if ( !inExec ) return 0;
  Off off; int o = obj( m, 'm' );
  if ( cur >= 0 ) point( UNLOCK, o );
  if ( objs[ o ].owner != cur ) fail( "unlock of a mutex that the thread does not hold" );
  objs[ o ].owner = -2; relHb( o );
  return 0;
}
static int condWait( const void * c, const void * m, bool timed )
{
  if ( !inExec ) return 0;
  Off off; int oc = obj( c, 'c' ), om = obj( m, 'm' );
  if ( cur < 0 ) fail( "wait outside of the threads" );
  point( WAIT, oc, om );
  if ( objs[ om ].owner != cur ) fail( "wait with a mutex that the thread does not hold" );
  objs[ om ].owner = -2; relHb( om );
  Fiber & f = fib[ cur ]; f.signalled = 0; f.timed = timed; f.waitCond = oc; objs[ oc ].waiters.push_back( cur );
  point( RELOCK, om, oc );
  bool spur = !f.signalled;
  if ( spur )
  {
    if ( f.spurious > 0 ) --f.spurious;
    std::vector< int > & w = objs[ oc ].waiters; for ( size_t i = 0; i < w.size(); ++i ) if ( w[ i ] == cur ) { w.erase( w.begin() + i ); break; }
  }
  f.waitCond = -1; objs[ om ].owner = cur; acqHb( om );
  return spur && timed ? ETIMEDOUT : 0;
}
static int condSignal( const void * c, bool all )
{
  if ( !inExec ) return 0;
  Off off; int o = obj( c, 'c' );
  if ( cur >= 0 ) point( all ? BROADCAST : SIGNAL, o );
  std::vector< int > & w = objs[ o ].waiters;
  if ( all ) { for ( int t : w ) { fib[ t ].signalled = 1; join( fib[ t ].dep, fib[ cur ].dep ); } w.clear(); }
  else if ( !w.empty() )
  {
    size_t k = size_t( choice ) < w.size() ? size_t( choice ) : 0; int t = w[ k ]; w.erase( w.begin() + k );
    fib[ t ].signalled = 1; join( fib[ t ].dep, fib[ cur ].dep );
  }
  return 0;
}
static void forget( const void * a ) { if ( inExec ) { Off off; auto i = objOf.find( a ); if ( i != objOf.end() ) { if ( objs[ i->second ].owner >= 0 ) fail( "destruction of a locked mutex" ); if ( !objs[ i->second ].waiters.empty() ) fail( "destruction of a condition with waiting threads" ); objOf.erase( i ); } } }

// ---- atomics --------------------------------------------------------------------
static bool shared( const void * a ) { return holdsArena( a ) || ( a >= &__data_start && a < &_end ); }
// before the access: scheduling point, checks against plain accesses, release edge
static void before( const void * a, size_t n, bool read, bool write, int mo, Kind k, bool wantPoint )
{
  if ( !inExec || !active || !shared( a ) ) return;
  if ( cur >= 0 && wantPoint ) { Off off; int o = obj( a, 'a' ); point( k, o ); }
  if ( holdsArena( a ) ) for ( size_t i = 0; i < n; ++i ) if ( !alive[ static_cast< const char * >( a ) - arena + i ] ) fail( "atomic access to freed memory" );
  VC & my = myHb(); int t = tid();
  for ( size_t i = 0; i < n; ++i )
  {
    uintptr_t x = uintptr_t( a ) + i; Cell * c = cell( x >> 3 ); c->enter( t ); int b = int( x & 7 );
    if ( c->w[ b ] && c->w[ b ] > my.c[ c->wt[ b ] ] ) fail( "data race: atomic access after an unordered plain write by " + name( c->wt[ b ] ) );
    if ( write ) for ( int q = 0; q < TIDS; ++q ) if ( q != t && ( c->tids >> q & 1 ) && c->row[ q ].r[ b ] > my.c[ q ] ) fail( "data race: atomic update after an unordered plain read by " + name( q ) );
    if ( read ) c->row[ t ].ar[ b ] = my.c[ t ];
    if ( write ) c->row[ t ].aw[ b ] = my.c[ t ];
  }
  Off off; int o = obj( a, 'a' );
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if ( write && !read ) memset( &objs[ o ].hb, 0, sizeof( VC ) );       // a store ends release sequences
  if ( read && acq ) acqHb( o );
  if ( write && rel ) relHb( o );
}
static char history; static bool useMarks = true;
void mark( bool begin ) { if ( !inExec || cur < 0 || !useMarks ) return; Off off; int o = obj( &history, 'h' ); point( begin ? MARKB : MARKE, o ); }
void spPoint( const void * a ) { if ( !inExec || cur < 0 ) return; Off off; int o = obj( a, 'a' ); point( ARMW, o ); }
void spRelease( const void * a ) { if ( !inExec ) return; Off off; relHb( obj( a, 'a' ) ); }
void spAcquire( const void * a ) { if ( !inExec ) return; Off off; acqHb( obj( a, 'a' ) ); }

// ---- exploration -----------------------------------------------------------------
static bool shares( const Op & a, const Op & b, int & common )
{
  if ( a.o1 >= 0 && ( a.o1 == b.o1 || a.o1 == b.o2 ) ) { common = a.o1; return true; }
  if ( a.o2 >= 0 && ( a.o2 == b.o1 || a.o2 == b.o2 ) ) { common = a.o2; return true; }
  return false;
}
static bool dependent( const Op & a, const Op & b )
{
  int c; if ( !shares( a, b, c ) ) return false;
  return !( a.kind == b.kind && ( a.kind == ALOAD || a.kind == MARKB || a.kind == MARKE ) );
}
static bool lockLike( Kind k ) { return k == LOCK || k == RELOCK || k == TRYLOCK; }
// may a (executed by another thread) and b (pending) be enabled in one state?
static bool coEnabled( const Op & a, const Op & b )
{
  int as[ 2 ] = { a.o1, a.o2 };
  for ( int o : as )
  {
    if ( o < 0 || ( o != b.o1 && o != b.o2 ) ) continue;
    if ( objs[ o ].type != 'm' ) return true;
    if ( a.kind == TRYLOCK || b.kind == TRYLOCK ) return true;
    if ( lockLike( a.kind ) && lockLike( b.kind ) ) return true;
  }
  return false;
}
static bool enabledOp( int t )
{
  Fiber & f = fib[ t ]; if ( f.done ) return false;
  switch ( f.pend.kind )
  {
    case LOCK: return objs[ f.pend.o1 ].owner == -2;
    case RELOCK: return objs[ f.pend.o1 ].owner == -2 && ( f.signalled || f.spurious > 0 );
    default: return true;
  }
}
static Op effective( int t )
{
  Op o = fib[ t ].pend;
  if ( o.kind == RELOCK && fib[ t ].signalled ) o.o2 = -1;       // no longer among the waiters
  return o;
}
static volatile long ticks = 0; static volatile long lastTicks = -1; static volatile int stuck = 0;
static void onTick( int ) { if ( ticks == lastTicks ) { if ( ++stuck >= 3 ) fail( "a thread runs forever without reaching a synchronization operation" ); } else stuck = 0; lastTicks = ticks; }
static void onCrash( int s ) { fail( "crash (signal " + std::to_string( s ) + ")" ); }

static void addBacktrack( int p, const VC & dep, size_t depth, const Op & op )
{
  for ( long i = long( depth ) - 1; i >= 0; --i )
  {
    Step & s = steps[ i ];
    if ( s.tid == p || !dependent( s.op, op ) || !coEnabled( s.op, op ) ) continue;
    if ( dep.c[ s.tid ] >= s.index ) continue;                     // happens before
    Node & n = nodes[ i ];
    if ( n.enabled & ( 1u << p ) ) { n.backtrack |= 1u << p; return; }
    // threads whose later steps lead to p
    for ( long j = i + 1; j < long( depth ); ++j )
      if ( ( n.enabled & ( 1u << steps[ j ].tid ) ) && dep.c[ steps[ j ].tid ] >= steps[ j ].index ) { n.backtrack |= 1u << steps[ j ].tid; return; }
    n.backtrack |= n.enabled;
    return;
  }
}

static void reset()
{
  objs.clear(); objOf.clear(); steps.clear(); trace.clear(); memset( bump, 0, sizeof bump ); liveBlocks = 0; ++gen; cellsUsed = 0;
  memset( &mainHb, 0, sizeof mainHb ); mainHb.c[ 0 ] = 1;
}
static size_t lastUsed[ TIDS ];
// runs one execution along nodes and extends it; false: pruned
static bool execute()
{
  for ( int t = 0; t < TIDS; ++t ) memset( alive + size_t( ARENA ) * t, 0, lastUsed[ t ] );
  reset(); cur = -1; inExec = true; active = true;
  scen->setup();
  active = false;
  nfib = scen->threads();
  for ( int t = 0; t < nfib; ++t ) makeFiber( t );
  bool blocked = false, ok = true; long solo = 0;
  int last = -1;
  for ( size_t depth = 0; ; ++depth )
  {
    ++ticks;
    unsigned en = 0, live = 0;
    for ( int t = 0; t < nfib; ++t ) { if ( !fib[ t ].done ) live |= 1u << t; if ( enabledOp( t ) ) en |= 1u << t; }
    if ( !live ) break;
    // a waiting thread may stay asleep: only signalled (or not waiting) threads count as able to run
    unsigned sure = 0; for ( int t = 0; t < nfib; ++t ) if ( ( en & ( 1u << t ) ) && !( fib[ t ].pend.kind == RELOCK && !fib[ t ].signalled ) ) sure |= 1u << t;
    if ( !sure )
    {
      for ( int t = 0; t < nfib; ++t ) if ( !fib[ t ].done && fib[ t ].timed && fib[ t ].pend.kind == RELOCK ) { fib[ t ].spurious = 1; en |= 1u << t; sure |= en; }
      if ( !sure )
      {
        if ( !scen->mayBlock() )
        {
          std::string who; for ( int t = 0; t < nfib; ++t ) if ( live & ( 1u << t ) ) who += "\n  T" + std::to_string( t ) + " waits: " + opText( fib[ t ].pend );
          fail( "deadlock or lost wake-up" + who );
        }
        if ( !en ) { blocked = true; break; }      // otherwise go on with spurious wake-ups
      }
    }
    if ( depth >= MAXSTEPS ) { ++longRuns; ok = false; break; }
    solo = ( en & ( en - 1 ) ) ? 0 : solo + 1;
    if ( solo > SOLO ) fail( "a thread loops forever while no other thread can run" );
    if ( depth == nodes.size() )
    {
      Node n; n.enabled = en; n.backtrack = 0; n.done = 0; n.sleep = 0; n.choice = 0; n.nchoices = 1;
      for ( int t = 0; t < nfib; ++t ) n.pend[ t ] = effective( t );
      if ( depth > 0 )
      {
        Node & m = nodes[ depth - 1 ]; unsigned z = ( m.sleep | m.done ) & ~( 1u << m.chosen );
        for ( int t = 0; t < nfib; ++t ) if ( ( z & ( 1u << t ) ) && !fib[ t ].done && !dependent( m.pend[ t ], steps[ depth - 1 ].op ) ) n.sleep |= 1u << t;
      }
      if ( full ) n.sleep = 0;
      else for ( int t = 0; t < nfib; ++t ) if ( live & ( 1u << t ) ) addBacktrack( t, fib[ t ].dep, depth, n.pend[ t ] );
      unsigned c = en & ~n.sleep;
      if ( !c ) { ++pruned; ok = false; break; }
      int pick = -1;
      if ( last >= 0 && ( c & ( 1u << last ) ) && ( sure & ( 1u << last ) ) ) pick = last;
      for ( int t = 0; pick < 0 && t < nfib; ++t ) if ( c & sure & ( 1u << t ) ) pick = t;
      for ( int t = 0; pick < 0 && t < nfib; ++t ) if ( c & ( 1u << t ) ) pick = t;
      n.chosen = pick; n.backtrack = full ? en : 1u << pick; if ( full ) n.sleep = 0;
      nodes.push_back( n );
    }
    Node & n = nodes[ depth ]; int t = n.chosen; last = t;
    if ( !( en & ( 1u << t ) ) ) { printf( "replay diverged\n%s", traceText().c_str() ); _exit( 3 ); }
    Op o = effective( t );
    if ( o.kind != n.pend[ t ].kind || o.o1 != n.pend[ t ].o1 ) { printf( "replay diverged (operation)\n%s", traceText().c_str() ); _exit( 3 ); }
    if ( o.kind == SIGNAL ) n.nchoices = objs[ o.o1 ].waiters.empty() ? 1 : int( objs[ o.o1 ].waiters.size() );
    choice = n.choice;
    // dependency clocks
    Fiber & f = fib[ t ]; ++transitions;
    Step s; s.tid = t; s.op = o; s.index = uint32_t( depth + 1 );
    int os[ 2 ] = { o.o1, o.o2 };
    // wr: what loads depend on (marks: the begins), all: what everything else depends on (marks: the ends)
    for ( int x : os ) if ( x >= 0 ) join( f.dep, o.kind == ALOAD || o.kind == MARKE ? objs[ x ].wr : objs[ x ].all );
    f.dep.c[ t ] = s.index; s.dep = f.dep;
    for ( int x : os ) if ( x >= 0 ) { if ( o.kind != MARKB ) join( objs[ x ].all, f.dep ); if ( o.kind != ALOAD && o.kind != MARKE ) join( objs[ x ].wr, f.dep ); }
    steps.push_back( s );
    if ( o.kind != START && o.kind != MARKB && o.kind != MARKE ) trace.push_back( Ev{ t, o, o.kind == RELOCK && !f.signalled ? "spurious wake-up" : "" } );
    toFiber( t );
    active = false;
  }
  if ( long( steps.size() ) > maxDepth ) maxDepth = long( steps.size() );
  cur = -1;
  if ( ok )
  {
    for ( int t = 0; t < nfib; ++t ) join( mainHb, fib[ t ].hb );
    if ( blocked ) ++blockedRuns;
    active = true; scen->finish( blocked ); active = false;
    if ( !blocked && liveBlocks != 0 ) fail( "memory leak: " + std::to_string( liveBlocks ) + " blocks are never freed" );
    {
      // what the threads observed, as a whole
      uint64_t h[ TIDS ] = { blocked };
      for ( Ev & e : trace ) if ( !e.text.empty() && e.op.kind == YIELD ) for ( char c : e.text ) h[ e.tid + 1 ] = ( h[ e.tid + 1 ] ^ uint64_t( c ) ) * 0x100000001B3ull + 1;
      for ( int t = 1; t < TIDS; ++t ) h[ 0 ] = ( h[ 0 ] ^ h[ t ] ) * 0x9E3779B97F4A7C15ull + 7;
      outcomes.insert( h[ 0 ] );
    }
    if ( sample.empty() || executions == 50 ) sample = scenName + ": " + traceText();
  }
  inExec = false; active = false;
  for ( int t = 0; t < TIDS; ++t ) lastUsed[ t ] = bump[ t ];
  ++executions;
  return ok;
}
static bool next()
{
  while ( !nodes.empty() )
  {
    Node & n = nodes.back();
    if ( n.choice + 1 < n.nchoices ) { ++n.choice; return true; }
    n.done |= 1u << n.chosen; n.choice = 0; n.nchoices = 1;
    unsigned c = n.backtrack & ~n.done & ~n.sleep & n.enabled;
    if ( c ) { n.chosen = __builtin_ctz( c ); return true; }
    nodes.pop_back();
  }
  return false;
}
static double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

int main( int argc, char ** argv, Scenario * ( *make )( const std::string & ) )
{
  for ( int i = 1; i < argc; ++i ) { std::string s = argv[ i ]; size_t q = s.find( '=' ); args[ s.substr( 0, q ) ] = q == std::string::npos ? "1" : s.substr( q + 1 ); }
  arena = static_cast< char * >( mmap( 0, size_t( ARENA ) * TIDS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
  alive = static_cast< unsigned char * >( mmap( 0, size_t( ARENA ) * TIDS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
  cells = static_cast< Cell * >( mmap( 0, sizeof( Cell ) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
  for ( int i = 0; i < MAXT; ++i ) fib[ i ].stack = 0;
  spuriousBudget = arg( "spurious", 1 ); commute = arg( "commute", 0 ) != 0; useMarks = arg( "marks", 1 ) != 0; full = arg( "full", 0 ) != 0;
  int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
  static char alt[ 65536 ]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack( &ss, 0 );
  for ( int s : sigs ) { struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK; sigaction( s, &sa, 0 ); }
  { struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_handler = onTick; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction( SIGALRM, &sa, 0 ); }
  itimerval it = { { 4, 0 }, { 4, 0 } }; setitimer( ITIMER_REAL, &it, 0 );
  double t0 = now(); double budget = double( arg( "budget", 600 ) ); bool complete = true;
  std::string all = sarg( "scenario", "" ); long scenarios = 0, unfinished = 0; std::string left;
  if ( all[ 0 ] == '@' ) { FILE * f = fopen( all.c_str() + 1, "r" ); std::string t; int c; while ( f && ( c = fgetc( f ) ) != EOF ) t += c == '\n' ? ';' : char( c ); if ( f ) fclose( f ); all = t; }
  for ( size_t i = 0; i < all.size(); )
  {
    size_t q = all.find( ';', i ); if ( q == std::string::npos ) q = all.size();
    scenName = all.substr( i, q - i ); i = q + 1;
    if ( scenName.empty() ) continue;
    scen = make( scenName );
    if ( !scen ) { printf( "unknown scenario %s\n", scenName.c_str() ); return 3; }
    nodes.clear();
    long e = executions, tr = transitions, pr = pruned, bl = blockedRuns;
    execute(); nodes.clear(); executions = e; transitions = tr; pruned = pr; blockedRuns = bl;     // warm-up: function-local statics
    ++scenarios;
    double t1 = now(), each = double( arg( "each", 1000000 ) );
    do
    {
      execute();
      if ( ( executions & 255 ) == 0 && ( now() - t0 > budget || now() - t1 > each ) ) { complete = false; ++unfinished; if ( left.size() < 300 ) left += scenName + " "; break; }
    } while ( next() );
    inExec = false; 
    if ( arg( "verbose", 0 ) ) fprintf( stderr, "%s: %ld executions, %.1f s\n", scenName.c_str(), executions - e, now() - t1 );
    delete scen;
  }
  if ( longRuns ) complete = false;
  std::string e; for ( char c : sample.substr( 0, 1500 ) ) e += c == '\n' ? ';' : c == '"' || c == '\\' ? '\'' : c;
  printf( "{\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"complete\":%s,\"pruned\":%ld,\"blocked\":%ld,\"scenarios\":%ld,\"unfinished\":%ld,\"maxdepth\":%ld,\"outcomes\":%ld,\"wall\":%.1f,\"left\":\"%s\",\"sample\":\"%s\"}\n",
    executions - pruned, transitions, executions - pruned, complete ? "true" : "false", pruned, blockedRuns, scenarios, unfinished, maxDepth, long( outcomes.size() ), now() - t0, left.c_str(), e.c_str() );
  return 0;
}
} // namespace conc
using namespace conc;

// ---- interposed functions -----------------------------------------------------
extern "C" {
int pthread_mutex_init( pthread_mutex_t * m, const pthread_mutexattr_t * ) { memset( m, 0, sizeof *m ); forget( m ); return 0; }
int pthread_mutex_destroy( pthread_mutex_t * m ) { forget( m ); return 0; }
int pthread_mutex_lock( pthread_mutex_t * m ) { return mutexLock( m, false ); }
int pthread_mutex_trylock( pthread_mutex_t * m ) { return mutexLock( m, true ); }
int pthread_mutex_unlock( pthread_mutex_t * m ) { return mutexUnlock( m ); }
int pthread_cond_init( pthread_cond_t * c, const pthread_condattr_t * ) { memset( c, 0, sizeof *c ); forget( c ); return 0; }
int pthread_cond_destroy( pthread_cond_t * c ) { forget( c ); return 0; }
int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m ) { return condWait( c, m, false ); }
int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const timespec * ) { return condWait( c, m, true ); }
int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const timespec * ) { return condWait( c, m, true ); }
int pthread_cond_signal( pthread_cond_t * c ) { return condSignal( c, false ); }
int pthread_cond_broadcast( pthread_cond_t * c ) { return condSignal( c, true ); }
int sched_yield() { if ( inExec && cur >= 0 ) { Off off; point( YIELD ); } return 0; }

void __tsan_init() {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit() {}
#define RW( n ) \
  void __tsan_read##n( void * a ) { access( a, n, false ); } void __tsan_write##n( void * a ) { access( a, n, true ); } \
  void __tsan_unaligned_read##n( void * a ) { access( a, n, false ); } void __tsan_unaligned_write##n( void * a ) { access( a, n, true ); } \
  void __tsan_volatile_read##n( void * a ) { access( a, n, false ); } void __tsan_volatile_write##n( void * a ) { access( a, n, true ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void * a, unsigned long n ) { access( a, n, false ); }
void __tsan_write_range( void * a, unsigned long n ) { access( a, n, true ); }
void __tsan_vptr_update( void ** p, void * v ) { if ( *p != v ) access( p, 8, true ); }
void __tsan_vptr_read( void ** p ) { access( p, 8, false ); }
void __tsan_atomic_thread_fence( int ) {}
void __tsan_atomic_signal_fence( int ) {}
}
// counters: with commute=1 updates are scheduling points only when they drop to zero
template< class T > static bool wantPoint( T newValue ) { return !commute || newValue == 0; }
#define ATOMIC( bits, T ) \
  extern "C" T __tsan_atomic##bits##_load( const volatile T * a, int mo ) { void * p = ( void * )a; before( p, sizeof( T ), true, false, mo, ALOAD, !commute ); return *a; } \
  extern "C" void __tsan_atomic##bits##_store( volatile T * a, T v, int mo ) { void * p = ( void * )a; before( p, sizeof( T ), false, true, mo, ARMW, true ); *a = v; } \
  extern "C" T __tsan_atomic##bits##_exchange( volatile T * a, T v, int mo ) { void * p = ( void * )a; before( p, sizeof( T ), true, true, mo, ARMW, true ); T o = *a; *a = v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_add( volatile T * a, T v, int mo ) { void * p = ( void * )a; before( p, sizeof( T ), true, true, mo, ARMW, wantPoint< T >( T( *a + v ) ) ); T o = *a; *a = T( o + v ); return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_sub( volatile T * a, T v, int mo ) { void * p = ( void * )a; before( p, sizeof( T ), true, true, mo, ARMW, wantPoint< T >( T( *a - v ) ) ); T o = *a; *a = T( o - v ); return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_and( volatile T * a, T v, int mo ) { void * p = ( void * )a; before( p, sizeof( T ), true, true, mo, ARMW, true ); T o = *a; *a = o & v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_or( volatile T * a, T v, int mo ) { void * p = ( void * )a; before( p, sizeof( T ), true, true, mo, ARMW, true ); T o = *a; *a = o | v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_xor( volatile T * a, T v, int mo ) { void * p = ( void * )a; before( p, sizeof( T ), true, true, mo, ARMW, true ); T o = *a; *a = o ^ v; return o; } \
  extern "C" T __tsan_atomic##bits##_fetch_nand( volatile T * a, T v, int mo ) { void * p = ( void * )a; before( p, sizeof( T ), true, true, mo, ARMW, true ); T o = *a; *a = T( ~( o & v ) ); return o; } \
  extern "C" bool __tsan_atomic##bits##_compare_exchange_strong( volatile T * a, T * e, T v, int mo, int fmo ) \
  { void * p = ( void * )a; before( p, sizeof( T ), true, true, mo, ARMW, true ); T o = *a; if ( o == *e ) { *a = v; return true; } *e = o; ( void )fmo; return false; } \
  extern "C" bool __tsan_atomic##bits##_compare_exchange_weak( volatile T * a, T * e, T v, int mo, int fmo ) { return __tsan_atomic##bits##_compare_exchange_strong( a, e, v, mo, fmo ); } \
  extern "C" T __tsan_atomic##bits##_compare_exchange_val( volatile T * a, T e, T v, int mo, int fmo ) { __tsan_atomic##bits##_compare_exchange_strong( a, &e, v, mo, fmo ); return e; }
typedef unsigned char U8; typedef unsigned short U16; typedef unsigned U32; typedef unsigned long U64;
ATOMIC( 8, U8 ) ATOMIC( 16, U16 ) ATOMIC( 32, U32 ) ATOMIC( 64, U64 )

void * operator new( size_t n ) { return conc::allocate( n ); }
void * operator new[]( size_t n ) { return conc::allocate( n ); }
void * operator new( size_t n, const std::nothrow_t & ) noexcept { return conc::allocate( n ); }
void * operator new[]( size_t n, const std::nothrow_t & ) noexcept { return conc::allocate( n ); }
void operator delete( void * p ) noexcept { conc::release( p ); }
void operator delete[]( void * p ) noexcept { conc::release( p ); }
void operator delete( void * p, size_t ) noexcept { conc::release( p ); }
void operator delete[]( void * p, size_t ) noexcept { conc::release( p ); }

// library functions that touch containers without being instrumented
#include <list>
#include <set>
namespace std _GLIBCXX_VISIBILITY( default )
{
namespace __detail
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
void _List_node_base::_M_hook( _List_node_base * const p ) noexcept
{
  access( p, 16, true ); access( this, 16, true ); if ( p->_M_prev ) access( &p->_M_prev->_M_next, 8, true );
  this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
  access( this, 16, false ); _List_node_base * const n = this->_M_next; _List_node_base * const q = this->_M_prev;
  access( &q->_M_next, 8, true ); access( &n->_M_prev, 8, true );
  q->_M_next = n; n->_M_prev = q;
}
_GLIBCXX_END_NAMESPACE_VERSION
}
}
namespace std
{
void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & h ) throw()
{
  typedef void ( *F )( bool, _Rb_tree_node_base *, _Rb_tree_node_base *, _Rb_tree_node_base & );
  static F f = reinterpret_cast< F >( dlsym( RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_" ) );
  access( x, 32, true ); access( p, 32, true ); access( &h, 32, true ); f( left, x, p, h );
}
_Rb_tree_node_base * _Rb_tree_rebalance_for_erase( _Rb_tree_node_base * const z, _Rb_tree_node_base & h ) throw()
{
  typedef _Rb_tree_node_base * ( *F )( _Rb_tree_node_base *, _Rb_tree_node_base & );
  static F f = reinterpret_cast< F >( dlsym( RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_" ) );
  access( z, 32, true ); access( &h, 32, true ); return f( z, h );
}
}
