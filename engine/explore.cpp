// Explicit-state explorer: breadth-first search over the states a chart can
// reach, every operation from every state, every bounded combination of
// environment decisions per operation, each run compared with the model.
#include "env.hpp"
#include "model.hpp"

#include <unordered_set>
#include <unordered_map>
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <fstream>
#include <sstream>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace vf {

Env g;
AllocBook book;
std::vector< ChartEntry > & charts() { static std::vector< ChartEntry > v; return v; }

enum OpType { OP_INIT, OP_TERM, OP_EV, OP_CLEAR };
struct Op { int type, arg; std::vector<int> dec; };

static std::string opName( const Op & o )
{
  switch ( o.type )
  {
    case OP_INIT: return "initiate";
    case OP_TERM: return "terminate";
    case OP_EV: return "event " + std::to_string( o.arg );
    default: return "clear " + std::to_string( o.arg );
  }
}
static std::string ser( const Op & o )
{
  std::string s = opName( o ) + " :";
  for ( int d : o.dec ) s += " " + std::to_string( d );
  return s + "\n";
}
static bool parse( const std::string & line, Op & o )
{
  std::istringstream i( line ); std::string w;
  if ( !( i >> w ) ) return false;
  o = Op(); o.arg = 0;
  if ( w == "initiate" ) o.type = OP_INIT;
  else if ( w == "terminate" ) o.type = OP_TERM;
  else if ( w == "event" ) { o.type = OP_EV; i >> o.arg; }
  else if ( w == "clear" ) { o.type = OP_CLEAR; i >> o.arg; }
  else return false;
  i >> w;
  int d; while ( i >> d ) o.dec.push_back( d );
  return true;
}

struct Opts
{
  Cfg cfg; unsigned own = ~0u;
  int maxDepth = 99, maxQueue = 2, probeCost = -1; long maxStates = 1000000; double budget = 600;
  bool opTerm = true, opReinit = true, opCounted = true, opStack = true, queries = false, opClear = false, tail = false;
  int evKinds = 1; long allocFaults = 0;
  bool sticky = true; int window = 0;    // window: last operations that are part of the key
  std::string digest; long stopAt = -1;  // digest: file that gets one hash per run; stopat: run to describe and stop at
  std::string out, cur, vio, replay, chart, known, mode, other;
  int tailDepth = 2, tailCost = 0;       // mode=reinit / mode=pair: bounds of the second history
};
static Opts opt;

struct Stats
{
  long states = 0, runs = 0, ops = 0, callouts = 0, foreign = 0, maxDepth = 0, faults = 0, posts = 0, defers = 0,
    known = 0, handled = 0, thrown = 0, unexpanded = 0, probes = 0, tails = 0, allocFaults = 0, picks = 0;
  std::unordered_set< uint64_t > outcomes;
  std::string sample;                    // one of the longest histories
  bool complete = true;
};
static Stats st;

struct Exec
{
  const ChartEntry * ce;
  std::unique_ptr< IMachine > m;
  Model model;
  // history-dependent part of the key (see key())
  int lastOut; unsigned ever; int maxLeaves; std::string leafOrder; unsigned vioClass; std::string vio; bool known = false; int realOut = 0;
  std::deque< std::string > recent;      // the last opt.window operations

  explicit Exec( const ChartEntry & c ) : ce( &c ), model( c.desc ), lastOut( 0 ), ever( 0 ), maxLeaves( 0 ), vioClass( 0 )
  {
    g.desc = &c.desc; g.cfg = &opt.cfg; g.live.assign( c.desc.states.size(), (const void *)0 );
    g.log.clear(); g.dec.clear(); g.points.clear(); g.nextUid = g.nextBoom = 0; g.vioClass = 0; g.vio.clear();
    g.liveEvents = 0; g.checkQueries = opt.queries;
    book.blocks.clear(); book.failAt = -1; book.count = 0;
    m.reset( c.make() );
    g.machine = m.get();
  }
  ~Exec() { if ( m ) { g.machine = 0; m.release(); } } // abandoned after a violation: leak on purpose

  void mark( unsigned c, const std::string & w )
  {
    vioClass |= c;
    if ( vio.size() < 3000 ) vio += ( vio.empty() ? "" : "\n" ) + w;
  }

  static unsigned classOf( int type )
  {
    return ( type == K_REACT || type == K_UNCONS || type == K_INSTATE ) ? V_SEARCH : V_SEQ;
  }

  // compares logs; returns true if they agree structurally
  bool compareLogs( const std::vector<Rec> & a, const std::vector<Rec> & b, bool report )
  {
    size_t n = std::max( a.size(), b.size() );
    for ( size_t i = 0; i < n; ++i )
    {
      if ( i >= a.size() || i >= b.size() )
      {
        if ( report )
        {
          const Rec & r = i < a.size() ? a[ i ] : b[ i ];
          mark( classOf( r.type ), i < a.size() ? "unexpected call: " + show( ce->desc, r ) : "missing call: " + show( ce->desc, r ) );
        }
        return false;
      }
      const Rec & x = a[ i ], & y = b[ i ];
      if ( x.type != y.type || x.who != y.who || x.uid != y.uid )
      {
        if ( report )
        {
          unsigned c = x.type == y.type && x.who == y.who ? unsigned( V_SEARCH | V_EVENT ) : classOf( x.type ) | classOf( y.type );
          mark( c, "call " + std::to_string( i ) + ": got [" + show( ce->desc, x ) + "], expected [" + show( ce->desc, y ) + "]" );
        }
        return false;
      }
      if ( report && x.trig != y.trig ) mark( V_TRIG, "call " + std::to_string( i ) + ": got [" + show( ce->desc, x ) + "], expected [" + show( ce->desc, y ) + "]" );
      if ( report && ( x.copies != y.copies || x.counted != y.counted ) ) mark( V_EVENT, "call " + std::to_string( i ) + ": got [" + show( ce->desc, x ) + "], expected [" + show( ce->desc, y ) + "]" );
    }
    return true;
  }

  // outcome: -1 returned, >=0 Boom id, -2 other exception
  static std::string outName( int o ) { return o == -1 ? "returned" : o == -2 ? "threw something else" : "threw exception " + std::to_string( o ); }

  int applyModel( Model & mm, const Op & o )
  {
    try
    {
      switch ( o.type )
      {
        case OP_INIT: mm.apiInitiate(); break;
        case OP_TERM: mm.apiTerminate(); break;
        case OP_EV: mm.apiProcess( o.arg / 2, o.arg & 1 ); break;
        case OP_CLEAR: mm.apiClear( o.arg ); break;
      }
      return -1;
    }
    catch ( const Boom & b ) { return b.id; }
  }

  int applyReal( const Op & o )
  {
    try
    {
      switch ( o.type )
      {
        case OP_INIT: m->initiate(); break;
        case OP_TERM: m->terminate(); break;
        case OP_EV: m->process( o.arg / 2, g.nextUid++, o.arg & 1 ); break;
        case OP_CLEAR: m->clear( o.arg ); break;
      }
      return -1;
    }
    catch ( const Boom & b ) { return b.id; }
    catch ( const Runaway & ) { return -2; }
    catch ( const std::bad_alloc & ) { return -3; }
    catch ( ... ) { return -2; }
  }

  void startOp( const std::vector<int> & dec )
  {
    g.log.clear(); g.dec = dec; g.points.clear(); g.posts = 0; g.throws = 0; g.firstUid = -1; g.excPending = false;
  }

  void remember( const Op & o )
  {
    if ( opt.window == 0 ) return;
    Op t = o; while ( !t.dec.empty() && t.dec.back() == 0 ) t.dec.pop_back();
    recent.push_back( ser( t ) );
    if ( int( recent.size() ) > opt.window ) recent.pop_front();
  }
  // runs one operation on both sides; returns the violation classes found
  unsigned step( const Op & o )
  {
    ++st.ops;
    vioClass = 0; vio.clear();
    remember( o );
    Model before = model;
    startOp( o.dec );
    int ro = applyReal( o );
    realOut = ro;
    std::vector<Rec> rlog; rlog.swap( g.log );
    st.callouts += long( rlog.size() );
    if ( g.vioClass ) { mark( g.vioClass, g.vio ); g.log.swap( rlog ); return vioClass; }
    for ( size_t i = g.points.size(); i < o.dec.size(); ++i )
      if ( o.dec[ i ] != 0 ) { mark( V_SEARCH | V_SEQ, "replay diverged: fewer user-code calls than decisions" ); return vioClass; }

    // the leaf visiting order is arbitrary: accept any order that explains the log
    model.pick.clear();
    bool ok = false; int mo = -1;
    std::vector<int> pick;
    Model first( ce->desc ), mm( ce->desc );
    for ( int attempt = 0; attempt < 5000; ++attempt )
    {
      mm = before;
      mm.pick = pick;
      mm.begin( o.dec, &rlog );
      int out = applyModel( mm, o );
      if ( compareLogs( rlog, mm.log, false ) && out == ro &&
        ( attempt > 4000 || ( g.liveEvents == long( mm.posted.size() + mm.pending.size() ) && sameStates( mm ) ) ) ) { ok = true; mo = out; std::swap( model, mm ); if ( attempt ) ++st.picks; break; }
      if ( attempt == 0 ) { first = mm; mo = out; }
      // next pick sequence
      std::vector<int> menu = mm.pickMenu;
      std::vector<int> cur = pick; cur.resize( menu.size(), 0 );
      int j = int( menu.size() ) - 1;
      while ( j >= 0 && cur[ j ] + 1 >= menu[ j ] ) --j;
      if ( j < 0 ) break;
      cur.resize( j + 1 ); ++cur[ j ];
      pick = cur;
    }
    if ( !ok ) model = first;
    if ( !ok && isKnown( rlog ) ) { known = true; return 0; }
    compareLogs( rlog, model.log, true );
    model.observed = 0; model.dec = 0;
    if ( mo != ro )
      mark( V_OUTCOME, "operation " + outName( ro ) + ", expected: " + outName( mo ) );
    checkIdle();
    lastOut = ro == -1 ? ( model.sawExcHandled && !before.sawExcHandled ? 1 : 0 ) : 2;
    if ( lastOut ) ever |= unsigned( lastOut );
    model.sawExcHandled = false; model.sawExcFailed = false;
    g.log.swap( rlog );
    return vioClass;
  }

  bool sameStates( const Model & mm ) const
  {
    for ( size_t i = 0; i < g.live.size(); ++i ) if ( ( g.live[ i ] != 0 ) != ( mm.active[ i ] != 0 ) ) return false;
    return true;
  }

  // A deviation listed in known_findings.txt (switched on by known=...)?
  bool isKnown( const std::vector<Rec> & rlog ) const
  {
    if ( opt.known != "relaxed-second-stage-exit-throws" || model.relaxedThrow < 0 ) return false;
    const std::vector<Rec> & m = model.log;
    size_t i = 0;
    while ( i < m.size() && i < rlog.size() && m[ i ].type == rlog[ i ].type && m[ i ].who == rlog[ i ].who &&
      m[ i ].uid == rlog[ i ].uid && m[ i ].trig == rlog[ i ].trig ) ++i;
    if ( i >= m.size() || i >= rlog.size() ) return false;
    // the search for an exception reaction starts at the action context or, if
    // that is exited already, one of its outer states (which is kept alive for
    // it), instead of at the outermost unstable state further out
    int x = rlog[ i ].who;
    if ( rlog[ i ].type != K_REACT || rlog[ i ].uid != TRIG_EXC || x < 0 ) return false;
    std::vector<int> out = model.contexts( model.relaxedThrow );
    if ( x != model.relaxedThrow && std::find( out.begin(), out.end(), x ) == out.end() ) return false;
    out = model.contexts( x );
    if ( m[ i ].type == K_DTOR && m[ i ].who == x && i + 1 < m.size() ) for ( ; i < m.size() && m[ i ].type == K_DTOR; ++i ) {}
    return i < m.size() && m[ i ].type == K_REACT && m[ i ].uid == TRIG_EXC && std::find( out.begin(), out.end(), m[ i ].who ) != out.end();
  }

  // everything observable between operations
  void checkIdle()
  {
    const ChartDesc & d = ce->desc;
    for ( size_t i = 0; i < d.states.size(); ++i )
      if ( ( g.live[ i ] != 0 ) != ( model.active[ i ] != 0 ) )
        mark( V_CONFIG, std::string( "state " ) + d.states[ i ].name + ( g.live[ i ] ? " is active but should not be" : " should be active but is not" ) );
    std::vector<const void *> lv;
    if ( !vioClass || !( vioClass & ( V_CONFIG | V_MEM ) ) ) m->leaves( lv );
    leafOrder.clear();
    std::vector<char> seen( d.states.size(), 0 );
    for ( const void * p : lv )
    {
      int which = -1;
      for ( size_t i = 0; i < d.states.size(); ++i ) if ( p != 0 && g.live[ i ] == p ) which = int( i );
      if ( which < 0 ) { mark( V_CONFIG | V_QUERY, "iteration yields something that is not an active innermost state" ); return; }
      if ( seen[ which ] ) mark( V_CONFIG | V_QUERY, std::string( "iteration yields twice: " ) + d.states[ which ].name );
      seen[ which ] = 1;
      leafOrder += char( 'a' + which );
    }
    for ( size_t i = 0; i < d.states.size(); ++i )
      if ( d.states[ i ].inits.empty() && g.live[ i ] && !seen[ i ] && !( vioClass & ( V_CONFIG | V_MEM ) ) )
        mark( V_CONFIG | V_QUERY, std::string( "iteration misses active innermost state " ) + d.states[ i ].name );
    legal();
    maxLeaves = std::max( maxLeaves, int( lv.size() ) );
    bool any = false; for ( const void * p : g.live ) any = any || p;
    if ( m->terminated() != !any ) mark( V_CONFIG | V_QUERY, "terminated() is wrong" );
    if ( uidOf( m->trig() ) != TRIG_NONE ) mark( V_TRIG, "triggering_event() is not null while idle" );
    if ( opt.queries && !vioClass )
    {
      g.checkRefs = true;
      std::string q = m->queries( g.live );
      g.checkRefs = false;
      if ( !q.empty() ) mark( V_QUERY, "idle: " + q );
    }
    long want = long( model.posted.size() + model.pending.size() );
    if ( g.liveEvents != want )
      mark( V_EVENT | V_MEM, std::to_string( g.liveEvents ) + " event objects alive, expected " + std::to_string( want ) );
  }

  // is the set of live states a configuration the chart allows? (no model involved)
  void legal()
  {
    const ChartDesc & d = ce->desc;
    std::map< std::pair<int,int>, int > slot;
    for ( size_t i = 0; i < d.states.size(); ++i ) if ( g.live[ i ] )
    {
      int p = d.states[ i ].parent, r = p < 0 ? 0 : d.states[ i ].region;
      if ( ++slot[ std::make_pair( p, r ) ] > 1 ) mark( V_CONFIG, "two active states in one region" );
      if ( p >= 0 && !g.live[ p ] ) mark( V_CONFIG, "active state without active outer state" );
      if ( !d.states[ i ].inits.empty() )
      {
        bool has = false;
        for ( size_t j = 0; j < d.states.size(); ++j ) has = has || ( d.states[ j ].parent == int( i ) && g.live[ j ] );
        if ( !has ) mark( V_CONFIG, std::string( "active state without active inner state: " ) + d.states[ i ].name );
      }
    }
  }

  // destroys the machine and checks that too
  unsigned finish()
  {
    vioClass = 0; vio.clear();
    startOp( std::vector<int>() );
    g.machine = 0;
    m.reset();
    std::vector<Rec> rlog = g.log;
    if ( g.vioClass ) mark( g.vioClass, g.vio );
    std::vector<int> none;
    model.begin( none, 0 );
    model.apiDestroy();
    compareLogs( rlog, model.log, true );
    for ( size_t i = 0; i < g.live.size(); ++i ) if ( g.live[ i ] ) mark( V_MEM | V_SEQ, std::string( "state survives its machine: " ) + ce->desc.states[ i ].name );
    if ( g.liveEvents != 0 ) mark( V_MEM | V_EVENT, "event objects survive the machine" );
    if ( !book.blocks.empty() ) mark( V_MEM, "allocator blocks survive the machine" );
    return vioClass;
  }

  // Two reached states are merged only if the model states are equal up to
  // renaming of events, the library iterates its leaves in the same order, the
  // same number of leaves was ever active, the last operation had the same kind
  // of outcome and exceptions were handled / escaped before in the same way.
  std::string key() const
  {
    std::string k = model.key();
    k += '/'; k += leafOrder; k += '/'; k += char( '0' + maxLeaves );
    k += char( '0' + lastOut );
    if ( opt.sticky ) k += char( '0' + ever );
    for ( const std::string & w : recent ) k += '~' + w;
    return k;
  }
};

// ---- current-run marker (survives a crash) --------------------------------
static char * curBuf = 0; static size_t curCap = 1 << 16, curPrefix = 0;
static void openCur()
{
  if ( opt.cur.empty() ) return;
  int fd = open( opt.cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644 );
  if ( fd < 0 || ftruncate( fd, curCap ) ) { perror( "cur" ); exit( 2 ); }
  curBuf = static_cast<char *>( mmap( 0, curCap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
}
static void setCur( const std::string & s, size_t at )
{
  if ( !curBuf ) return;
  size_t n = std::min( s.size(), curCap - 1 - at );
  memcpy( curBuf + at, s.data(), n ); curBuf[ at + n ] = 0;
}

static volatile long tickRuns = 0, lastTick = -1, stuckTicks = 0;
static void onTick( int )
{
  if ( tickRuns == lastTick ) { if ( ++stuckTicks >= 3 ) _exit( 77 ); }
  else stuckTicks = 0;
  lastTick = tickRuns;
}

// ---- search -----------------------------------------------------------------
struct Node
{
  std::vector<Op> path; int depth;
  // what the model and the key looked like after the path
  std::shared_ptr< Model > model; int lastOut = 0; unsigned ever = 0; int maxLeaves = 0; std::string key;
  std::vector< uint64_t > hashes;
};

static std::string serPath( const std::vector<Op> & p ) { std::string s; for ( const Op & o : p ) s += ser( o ); return s; }

static void report( const std::string & chart, const std::vector<Op> & path, const std::string & what, unsigned cls )
{
  std::ofstream f( opt.vio.c_str() );
  f << "# chart " << chart << "\n";
  std::istringstream w( what ); std::string l;
  f << "# class " << cls << "\n";
  while ( std::getline( w, l ) ) f << "# " << l << "\n";
  f << serPath( path );
  f.close();
  std::cout << "VIOLATION-FOUND " << opt.vio << "\n" << what << "\n" << serPath( path );
}

static std::vector<Op> baseOps( const ChartDesc & d )
{
  std::vector<Op> v;
  v.push_back( Op{ OP_INIT, 0, {} } );
  for ( int k = 0; k < opt.evKinds; ++k )
  {
    if ( opt.opStack ) v.push_back( Op{ OP_EV, 2 * k, {} } );
    if ( opt.opCounted ) v.push_back( Op{ OP_EV, 2 * k + 1, {} } );
  }
  if ( opt.opTerm ) v.push_back( Op{ OP_TERM, 0, {} } );
  if ( opt.opClear ) for ( size_t i = 0; i < d.clears.size(); ++i ) v.push_back( Op{ OP_CLEAR, int( i ), {} } );
  return v;
}

static int costOf( const std::vector<Env::Point> & pts, const std::vector<int> & dec, size_t upto )
{
  int c = 0;
  for ( size_t i = 0; i < upto; ++i )
    for ( const Choice & m : pts[ i ].menu ) if ( m.code == dec[ i ] ) { c += m.cost; break; }
  return c;
}

static uint64_t hashAll( const std::vector<Rec> & l, uint64_t h )
{
  for ( const Rec & r : l )
    for ( int v : { r.type, r.who, r.uid, r.copies, r.trig, r.counted } ) h = ( h ^ uint64_t( unsigned( v ) ) ) * 1099511628211ull;
  return h;
}
static uint64_t hashStr( const std::string & t, uint64_t h ) { for ( char c : t ) h = ( h ^ (unsigned char)c ) * 1099511628211ull; return h; }
static FILE * digestFile = 0;
static long digestCount = 0;

static uint64_t hashLog( const std::vector<Rec> & l )
{
  uint64_t h = 1469598103934665603ull;
  for ( const Rec & r : l ) { h = ( h ^ uint64_t( r.type * 64 + r.who + 2 ) ) * 1099511628211ull; h = ( h ^ uint64_t( r.copies + 2 * r.counted ) ) * 1099511628211ull; }
  return h;
}

// Brings a new machine to the node's state. The path has been checked before,
// so only the library runs; every operation must produce the recorded log.
static bool replayPath( Exec & e, const Node & n )
{
  g.checkQueries = false;
  for ( size_t i = 0; i < n.path.size(); ++i )
  {
    e.startOp( n.path[ i ].dec );
    e.applyReal( n.path[ i ] );
    e.remember( n.path[ i ] );
    ++st.ops;
    if ( hashAll( g.log, 7 ) != n.hashes[ i ] || g.vioClass )
    {
      e.mark( V_CRASH, "the same operations behave differently when repeated" );
      return false;
    }
  }
  g.checkQueries = opt.queries;
  if ( n.model ) e.model = *n.model;
  e.lastOut = n.lastOut; e.ever = n.ever; e.maxLeaves = n.maxLeaves;
  return true;
}

// all runs of a search, for mode=reinit and mode=pair
struct RunRec { std::vector<Op> path; std::vector< std::vector<Rec> > logs; std::vector<int> outs; std::string leaves; int calls; bool node; };
static std::vector< RunRec > * recorder = 0;

static double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

// Allocation faults: from a state, fail the k-th allocation of one operation,
// for every k; the model is not consulted, only what must hold in any case.
static bool allocFaultRuns( const ChartEntry & ce, const Node & n, const Op & op, const Model & after )
{
  std::vector< std::vector<char> > allowed = after.snaps;
  allowed.push_back( after.active );
  for ( long k = 0; ; ++k )
  {
    ++tickRuns; ++st.runs; ++st.allocFaults;
    Exec e( ce );
    if ( !replayPath( e, n ) ) return true;
    std::vector<char> before( g.live.size() ), now( g.live.size() );
    for ( size_t i = 0; i < before.size(); ++i ) before[ i ] = g.live[ i ] != 0;
    e.startOp( op.dec );
    book.failAt = k;
    int ro = e.applyReal( op );
    bool failed = book.failAt < 0;
    book.failAt = -1;
    if ( !failed ) { e.m.reset(); g.machine = 0; return true; }
    e.vioClass = 0; e.vio.clear();
    std::ostringstream ctx; ctx << "with allocation " << k << " of the last operation failing: ";
    if ( g.vioClass ) e.mark( g.vioClass, ctx.str() + g.vio );
    if ( ro != -3 && !ce.desc.translator ) e.mark( V_OUTCOME | V_MEM, ctx.str() + "bad_alloc did not reach the caller" );
    e.legal();
    bool any = false; for ( const void * p : g.live ) any = any || p;
    std::vector<const void *> lv; if ( !e.vioClass ) e.m->leaves( lv );
    if ( e.m->terminated() != !any ) e.mark( V_CONFIG | V_MEM, ctx.str() + "terminated() is wrong" );
    size_t nl = 0; for ( size_t i = 0; i < g.live.size(); ++i ) if ( g.live[ i ] && ce.desc.states[ i ].inits.empty() ) ++nl;
    if ( !e.vioClass && lv.size() != nl ) e.mark( V_CONFIG | V_MEM, ctx.str() + "iteration does not match the live innermost states" );
    if ( e.m->trig() != 0 ) e.mark( V_TRIG | V_MEM, ctx.str() + "triggering event left behind" );
    for ( size_t i = 0; i < now.size(); ++i ) now[ i ] = g.live[ i ] != 0;
    if ( ro == -3 && any && !ce.desc.translator && now != before && std::find( allowed.begin(), allowed.end(), now ) == allowed.end() )
      e.mark( V_CONFIG | V_MEM, ctx.str() + "machine is neither terminated nor in a configuration it has between two reactions" );
    // (events may be left if a reaction terminated the machine and the unconsumed-event hook failed)
    bool byReaction = false;
    for ( const std::vector<char> & a : allowed ) byReaction = byReaction || std::find( a.begin(), a.end(), 1 ) == a.end();
    if ( !any && !byReaction && g.liveEvents != 0 ) e.mark( V_MEM, ctx.str() + "events left in a terminated machine" );
    if ( !e.vioClass )
    {
      // reusable: after re-initiating, behaves like a fresh machine
      e.startOp( std::vector<int>() );
      g.nextUid = 0; g.nextBoom = 0;
      Model fresh( ce.desc );
      e.model = fresh;
      int o1 = e.applyReal( Op{ OP_TERM, 0, {} } ); g.log.clear(); (void)o1;
      std::vector<Op> again = { Op{ OP_INIT, 0, {} }, Op{ OP_EV, 0, {} }, Op{ OP_TERM, 0, {} } };
      for ( const Op & a : again ) if ( e.step( a ) ) { e.vio = ctx.str() + "machine not reusable: " + e.vio; break; }
      if ( !e.vioClass && e.finish() ) e.vio = ctx.str() + "at destruction: " + e.vio;
    }
    if ( e.vioClass & opt.own )
    {
      std::vector<Op> p = n.path; p.push_back( op );
      report( ce.desc.name, p, e.vio, e.vioClass );
      return false;
    }
    if ( k > 200 ) return true;
  }
}

// A state that is not expanded itself (it equals one already reached, as far as
// the key tells) is followed by a fixed tail of operations, so that whatever the
// key does not see cannot stay hidden.
// the reaction (of the first innermost state of a new machine) that makes for the most calls: a transition, as a rule
static std::vector<int> busiestReaction( const ChartEntry & ce )
{
  static std::map< const ChartEntry *, std::vector<int> > known;
  if ( known.count( &ce ) ) return known[ &ce ];
  std::vector<int> best; size_t most = 0;
  std::vector< std::vector<int> > work( 1 );
  for ( size_t w = 0; w < work.size(); ++w )
  {
    Exec e( ce ); Op ev{ OP_EV, 0, work[ w ] };
    if ( e.step( Op{ OP_INIT, 0, {} } ) || e.step( ev ) ) { e.finish(); break; }
    if ( g.log.size() > most ) { most = g.log.size(); best = ev.dec; }
    if ( w == 0 )
      for ( size_t i = 0; i < g.points.size(); ++i )
        for ( const Choice & c : g.points[ i ].menu )
          if ( c.cost == 0 ) { std::vector<int> d; for ( size_t k = 0; k < i; ++k ) d.push_back( g.points[ k ].menu[ 0 ].code ); d.push_back( c.code ); work.push_back( d ); }
    e.finish();
  }
  return known[ &ce ] = best;
}

static bool tailRun( const ChartEntry & ce, const Node & n, const Op & op )
{
  static const std::vector<int> busy = busiestReaction( ce );
  Exec e( ce );
  std::vector<Op> p = n.path; p.push_back( op );
  if ( !replayPath( e, n ) || e.step( op ) ) return true; // reported by the caller
  ++st.tails;
  const Op tail[] = { Op{ OP_EV, 0, {} }, Op{ OP_TERM, 0, {} }, Op{ OP_EV, 0, {} }, Op{ OP_INIT, 0, {} }, Op{ OP_EV, 0, busy } };
  for ( const Op & t : tail )
  {
    p.push_back( t );
    setCur( serPath( p ), 0 );
    if ( unsigned v = e.step( t ) )
    {
      if ( v & opt.own ) { report( ce.desc.name, p, e.vio, v ); return false; }
      return true;
    }
  }
  unsigned v = e.finish();
  if ( v & opt.own ) { report( ce.desc.name, p, "when the machine is then destroyed:\n" + e.vio, v ); return false; }
  setCur( serPath( n.path ), 0 );
  return true;
}

static int search( const ChartEntry & ce )
{
  double t0 = now();
  std::unordered_set< std::string > seen;
  std::vector< Node > frontier, next;
  frontier.push_back( Node() ); frontier.back().depth = 0;
  { Exec e( ce ); seen.insert( e.key() ); e.finish(); }
  std::vector<Op> ops = baseOps( ce.desc );
  st.states = 1;
  for ( int depth = 0; !frontier.empty(); ++depth )
  {
    if ( depth >= opt.maxDepth ) { st.unexpanded += long( frontier.size() ); break; }
    next.clear();
    for ( const Node & n : frontier )
    {
      setCur( serPath( n.path ), 0 ); curPrefix = serPath( n.path ).size();
      for ( const Op & base : ops )
      {
        if ( base.type == OP_INIT && !opt.opReinit && !n.path.empty() && n.path.back().type != OP_TERM ) {}
        std::vector< std::vector<int> > work( 1 );
        while ( !work.empty() )
        {
          if ( now() - t0 > opt.budget ) { st.complete = false; return 0; }
          Op op = base; op.dec = work.back(); work.pop_back();
          setCur( ser( op ), curPrefix );
          ++tickRuns; ++st.runs;
          Exec e( ce );
          if ( !replayPath( e, n ) )
          {
            report( ce.desc.name, n.path, "replay of an accepted path now fails:\n" + e.vio, e.vioClass );
            return 1;
          }
          unsigned v = e.step( op );
          std::vector<Env::Point> pts = g.points;
          if ( digestFile )
          {
            uint64_t h = hashStr( e.vio, hashStr( e.leafOrder, hashAll( g.log, 1469598103934665603ull ) ) ) ^ uint64_t( unsigned( e.realOut + 7 ) ) * 0x9e3779b97f4a7c15ull;
            fwrite( &h, sizeof h, 1, digestFile );
          }
          if ( opt.stopAt >= 0 && digestCount == opt.stopAt )
          {
            std::vector<Op> p = n.path; p.push_back( op );
            std::string w = "run " + std::to_string( opt.stopAt ) + ", calls of the last operation:\n";
            for ( const Rec & r : g.log ) w += "  " + show( ce.desc, r ) + "\n";
            report( ce.desc.name, p, w + "operation " + Exec::outName( e.realOut ) + ", innermost states " + e.leafOrder + "\n" + e.vio, v );
            return 3;
          }
          ++digestCount;
          st.outcomes.insert( hashLog( g.log ) );
          if ( v & opt.own )
          {
            std::vector<Op> p = n.path; p.push_back( op );
            report( ce.desc.name, p, e.vio, v );
            return 1;
          }
          if ( e.known ) { ++st.known; continue; }
          if ( recorder && !v )
          {
            RunRec r; r.path = n.path; r.path.push_back( op ); r.leaves = e.leafOrder; r.node = false;
            r.calls = 0; for ( const Rec & l : g.log ) r.calls += l.type != K_DTOR;
            recorder->push_back( r );
          }
          std::vector<int> full = op.dec; full.resize( pts.size(), 0 );
          st.faults += g.throws; st.posts += g.posts;
          // alternatives to the defaults taken after the prefix
          if ( !v )
            for ( size_t i = op.dec.size(); i < pts.size(); ++i )
            {
              int c = costOf( pts, full, i );
              for ( size_t a = 1; a < pts[ i ].menu.size(); ++a )
                if ( c + pts[ i ].menu[ a ].cost <= opt.cfg.maxCost )
                {
                  std::vector<int> alt( full.begin(), full.begin() + i );
                  alt.push_back( pts[ i ].menu[ a ].code );
                  work.push_back( alt );
                }
            }
          if ( v ) { ++st.foreign; continue; }
          st.handled += e.lastOut == 1; st.thrown += e.lastOut == 2; st.defers += long( e.model.pending.size() );
          std::string k = e.key();
          bool merged = false;
          bool bounded = int( e.model.posted.size() ) <= opt.maxQueue && int( e.model.pending.size() ) <= opt.maxQueue;
          if ( !bounded ) ++st.unexpanded;
          else if ( seen.insert( k ).second )
          {
            ++st.states;
            if ( recorder ) recorder->back().node = true;
            if ( st.states > opt.maxStates ) { st.complete = false; return 0; }
            Node nn; nn.path = n.path; nn.depth = n.depth + 1; nn.path.push_back( op );
            nn.model.reset( new Model( e.model ) ); nn.lastOut = e.lastOut; nn.ever = e.ever; nn.maxLeaves = e.maxLeaves;
            nn.hashes = n.hashes; nn.hashes.push_back( hashAll( g.log, 7 ) );
            nn.path.back().dec = full;
            while ( !nn.path.back().dec.empty() && nn.path.back().dec.back() == 0 ) nn.path.back().dec.pop_back();
            next.push_back( nn );
            if ( next.size() == 1 ) st.sample = serPath( nn.path );
          }
          else merged = true;
          Model after = opt.allocFaults ? e.model : Model( ce.desc );
          unsigned fv = e.finish();
          if ( digestFile )
          {
            uint64_t h = hashStr( e.vio, hashAll( g.log, 7 ) );
            fwrite( &h, sizeof h, 1, digestFile );
          }
          ++digestCount;
          if ( fv & opt.own )
          {
            std::vector<Op> p = n.path; p.push_back( op );
            report( ce.desc.name, p, "when the machine is then destroyed:\n" + e.vio, fv );
            return 1;
          }
          if ( opt.tail && ( merged || !bounded ) && !tailRun( ce, n, op ) ) return 1;
          if ( opt.allocFaults && !allocFaultRuns( ce, n, op, after ) ) return 1;
        }
      }
      st.maxDepth = depth + 1;
    }
    frontier.swap( next );
  }
  return 0;
}

// ---- re-initiation and independence (no model involved) -----------------
// One machine with its own environment; the current one is swapped into g.
struct Inst
{
  const ChartEntry * ce; Env env; std::unique_ptr< IMachine > m; bool gone = false;
  explicit Inst( const ChartEntry & c ) : ce( &c )
  {
    Env blank; std::swap( g, blank );
    g.desc = &c.desc; g.cfg = &opt.cfg; g.live.assign( c.desc.states.size(), (const void *)0 );
    m.reset( c.make() );
    g.machine = m.get();
    std::swap( g, env ); std::swap( g, blank );
  }
  ~Inst() { if ( m ) m.release(); }
};
struct Seen { std::vector<Rec> log; int out; std::string leaves; int calls; };

static Exec * applier = 0;
static int applyTo( IMachine & m, const Op & o )
{
  std::unique_ptr< IMachine > & slot = applier->m;
  IMachine * old = slot.release(); slot.reset( &m );
  int r = applier->applyReal( o );
  slot.release(); slot.reset( old );
  return r;
}
static std::string leafNames( IMachine & m, const ChartDesc & d )
{
  std::vector<const void *> lv; std::string s; m.leaves( lv );
  for ( const void * p : lv ) for ( size_t i = 0; i < d.states.size(); ++i ) if ( p && g.live[ i ] == p ) s += char( 'a' + i );
  return s;
}
// runs an operation; lead: zero decisions taken before those of the operation
static Seen act( Inst & in, const Op & o, size_t lead = 0 )
{
  std::swap( g, in.env );
  int nestAt = g.nestAt;
  std::vector<int> dec( lead, 0 ); dec.insert( dec.end(), o.dec.begin(), o.dec.end() );
  g.log.clear(); g.dec = dec; g.points.clear(); g.posts = 0; g.throws = 0; g.firstUid = -1; g.excPending = false; g.nestAt = nestAt;
  ++st.ops;
  Seen s; s.out = applyTo( *in.m, o );
  s.log = g.log; s.leaves = leafNames( *in.m, in.ce->desc ); s.calls = int( g.points.size() );
  if ( g.vioClass ) s.leaves += "!" + g.vio;
  st.callouts += long( s.log.size() );
  std::swap( g, in.env );
  return s;
}
static Seen destroyInst( Inst & in )
{
  std::swap( g, in.env );
  g.log.clear(); g.dec.clear(); g.machine = 0; g.nestAt = -1;
  in.m.reset();
  Seen s; s.out = 0; s.log = g.log; s.calls = 0; s.leaves = std::to_string( g.liveEvents );
  if ( g.vioClass ) s.leaves += "!" + g.vio;
  std::swap( g, in.env );
  return s;
}
static bool same( const std::vector<Rec> & a, const std::vector<Rec> & b )
{
  if ( a.size() != b.size() ) return false;
  for ( size_t i = 0; i < a.size(); ++i )
    if ( a[ i ].type != b[ i ].type || a[ i ].who != b[ i ].who || a[ i ].uid != b[ i ].uid || a[ i ].copies != b[ i ].copies ||
      a[ i ].trig != b[ i ].trig || a[ i ].counted != b[ i ].counted ) return false;
  return true;
}
static bool same( const Seen & a, const Seen & b ) { return a.out == b.out && a.leaves == b.leaves && same( a.log, b.log ); }
static std::string text( const ChartDesc & d, const Seen & s )
{
  std::string t;
  for ( const Rec & r : s.log ) t += "    " + show( d, r ) + "\n";
  return t + "    " + Exec::outName( s.out ) + ", innermost states " + s.leaves + "\n";
}
static std::vector< RunRec > recordRuns( const ChartEntry & ce, int depth, int cost, bool nodesOnly )
{
  int d = opt.maxDepth, c = opt.cfg.maxCost; unsigned own = opt.own;
  opt.maxDepth = depth; opt.cfg.maxCost = cost; opt.own = 0;
  std::vector< RunRec > v; recorder = &v;
  search( ce );
  recorder = 0; opt.maxDepth = d; opt.cfg.maxCost = c; opt.own = own;
  if ( nodesOnly ) { std::vector< RunRec > w; for ( RunRec & r : v ) if ( r.node ) w.push_back( r ); v.swap( w ); }
  return v;
}

static int reportText( const std::string & what )
{
  std::ofstream f( opt.vio.c_str() ); f << what; f.close();
  std::cout << "VIOLATION-FOUND " << opt.vio << "\n" << what << "\n";
  return 1;
}

// path + initiate + tail behaves like terminate's part followed by a fresh machine's
static int reinitMode( const ChartEntry & ce )
{
  double t0 = now();
  Exec app( ce ); app.m.reset(); applier = &app;
  std::vector< RunRec > nodes = recordRuns( ce, opt.maxDepth, opt.cfg.maxCost, false );
  std::vector< RunRec > tails = recordRuns( ce, opt.tailDepth, opt.tailCost, false ), t2;
  for ( RunRec & r : tails ) if ( r.path[ 0 ].type == OP_INIT ) t2.push_back( r );
  tails.swap( t2 );
  // runs that end in a state already reached are continued by the busiest short history only
  size_t busy = 0;
  for ( size_t i = 0; i < tails.size(); ++i )
    if ( tails[ i ].path.size() == 2 && tails[ i ].path[ 0 ].dec.empty() && ( tails[ busy ].path.size() != 2 || tails[ i ].calls > tails[ busy ].calls ) ) busy = i;
  std::vector< std::vector< Seen > > want( tails.size() );
  for ( size_t i = 0; i < tails.size(); ++i )
  {
    Inst f( ce );
    for ( const Op & o : tails[ i ].path ) want[ i ].push_back( act( f, o ) );
    want[ i ].push_back( destroyInst( f ) );
  }
  long runs = 0;
  for ( const RunRec & n : nodes )
  {
    Inst t( ce ); std::vector< Seen > pre; for ( const Op & o : n.path ) pre.push_back( act( t, o ) );
    // what the terminate call does, also with faults that it survives; whatever is still active afterwards (an exception reaction
    // may have moved the machine on) is destroyed before the new start
    std::vector< std::pair< std::vector<int>, Seen > > terms;
    {
      std::vector< std::vector<int> > work( 1 );
      while ( !work.empty() )
      {
        std::vector<int> dec = work.back(); work.pop_back();
        Inst v( ce ); for ( const Op & o : n.path ) act( v, o );
        Seen term = act( v, Op{ OP_TERM, 0, dec } );
        std::vector<Env::Point> pts = v.env.points;
        std::vector<int> full = dec; full.resize( pts.size(), 0 );
        bool survived = term.out == -1 && term.leaves.find( '!' ) == std::string::npos;
        if ( survived )
        {
          Seen rest = destroyInst( v );
          for ( const Rec & r : rest.log ) if ( r.type == K_DTOR ) term.log.push_back( r );
          terms.push_back( std::make_pair( full, term ) );
        }
        else if ( dec.empty() ) { terms.push_back( std::make_pair( full, term ) ); }
        if ( ce.desc.translator && n.node )
          for ( size_t i = dec.size(); i < pts.size(); ++i )
          {
            int c = costOf( pts, full, i );
            for ( size_t a = 1; a < pts[ i ].menu.size(); ++a )
              if ( c + pts[ i ].menu[ a ].cost <= opt.cfg.maxCost )
              { std::vector<int> alt( full.begin(), full.begin() + i ); alt.push_back( pts[ i ].menu[ a ].code ); work.push_back( alt ); }
          }
      }
    }
    destroyInst( t );
    for ( size_t tv = 0; tv < ( n.node ? terms.size() : std::min< size_t >( 1, terms.size() ) ); ++tv )
    for ( size_t i = n.node ? 0 : busy; i < ( n.node ? tails.size() : busy + 1 ); ++i )
    {
      const Seen & term = terms[ tv ].second; const std::vector<int> & termDec = terms[ tv ].first;
      if ( tv > 0 && ( tails[ i ].path.size() > 2 || !tails[ i ].path[ 0 ].dec.empty() ) ) continue;
      if ( now() - t0 > opt.budget ) { st.complete = false; goto done; }
      ++tickRuns; ++runs;
      std::string where = serPath( n.path ) + "# ---- then" + ( tv ? " (decisions of the terminating part: " : "" );
      if ( tv ) { for ( int c : termDec ) where += std::to_string( c ) + " "; where += ")"; }
      where += "\n" + serPath( tails[ i ].path );
      setCur( where, 0 );
      Inst a( ce );
      for ( size_t k = 0; k < n.path.size(); ++k ) if ( !same( act( a, n.path[ k ] ), pre[ k ] ) ) return reportText( "# the same operations behave differently when repeated\n" + where );
      a.env.nextUid = 0; a.env.nextBoom = 0;
      for ( size_t k = 0; k < tails[ i ].path.size(); ++k )
      {
        Op o = tails[ i ].path[ k ];
        if ( k == 0 ) o.dec.insert( o.dec.begin(), termDec.begin(), termDec.end() );
        Seen s = act( a, o ), w = want[ i ][ k ];
        if ( k == 0 ) w.log.insert( w.log.begin(), term.log.begin(), term.log.end() );
        if ( !same( s, w ) )
          return reportText( "# re-initiated machine differs from a new one in operation " + std::to_string( k ) + " after re-initiation, chart " + ce.desc.name + "\n" + where +
            "#   got\n" + text( ce.desc, s ) + "#   expected\n" + text( ce.desc, w ) );
      }
      Seen s = destroyInst( a );
      if ( !same( s, want[ i ].back() ) ) return reportText( "# re-initiated machine is destroyed differently\n" + where + "#   got\n" + text( ce.desc, s ) + "#   expected\n" + text( ce.desc, want[ i ].back() ) );
    }
  }
done:
  st.runs += runs; st.probes = runs;
  return 0;
}

// an operation on B performed inside each call of an operation on A
static Inst * nestB = 0; static Op nestOp; static Seen nestSeen; static bool nested;
static void doNest()
{
  Env hold; std::swap( g, hold );
  nestSeen = act( *nestB, nestOp ); nested = true;
  std::swap( g, hold );
}
static int pairMode( const ChartEntry & ca, const ChartEntry & cb )
{
  double t0 = now();
  Exec app( ca ); app.m.reset(); applier = &app;
  std::vector< RunRec > as = recordRuns( ca, opt.maxDepth, opt.cfg.maxCost, false ), bs = recordRuns( cb, opt.tailDepth, opt.tailCost, false );
  long runs = 0;
  const Op probes[] = { Op{ OP_EV, 0, {} }, Op{ OP_TERM, 0, {} } };
  // what each machine does when it is alone
  auto alone = [&]( const ChartEntry & c, const RunRec & r )
  {
    std::vector< Seen > v; Inst i( c );
    for ( const Op & o : r.path ) v.push_back( act( i, o ) );
    for ( const Op & o : probes ) v.push_back( act( i, o ) );
    v.push_back( destroyInst( i ) );
    return v;
  };
  std::vector< std::vector< Seen > > wa, wb;
  for ( const RunRec & r : as ) wa.push_back( alone( ca, r ) );
  for ( const RunRec & r : bs ) wb.push_back( alone( cb, r ) );
  for ( size_t i = 0; i < as.size(); ++i )
    for ( size_t j = 0; j < bs.size(); ++j )
      for ( int c = 0; c < as[ i ].calls; ++c )
      {
        if ( now() - t0 > opt.budget ) { st.complete = false; goto done; }
        ++tickRuns; ++runs;
        std::string where = "machine A, chart " + std::string( ca.desc.name ) + ":\n" + serPath( as[ i ].path ) + "machine B, chart " + cb.desc.name + ", last operation inside call " +
          std::to_string( c ) + " of A's last operation:\n" + serPath( bs[ j ].path );
        setCur( where, 0 );
        Inst a( ca ), b( cb );
        std::string bad;
        auto expect = [&]( const Seen & s, const Seen & w, const ChartDesc & d, const char * who )
        {
          if ( bad.empty() && !same( s, w ) ) bad = std::string( "# machine " ) + who + " behaves differently next to another machine\n" + where + "#   got\n" + text( d, s ) + "#   expected\n" + text( d, w );
        };
        size_t na = as[ i ].path.size(), nb = bs[ j ].path.size();
        for ( size_t k = 0; k < std::max( na, nb ); ++k )
        {
          if ( k + 1 < nb ) expect( act( b, bs[ j ].path[ k ] ), wb[ j ][ k ], cb.desc, "B" );
          if ( k + 1 < na ) expect( act( a, as[ i ].path[ k ] ), wa[ i ][ k ], ca.desc, "A" );
        }
        nestB = &b; nestOp = bs[ j ].path.back(); nested = false;
        a.env.nestAt = c; a.env.nest = &doNest;
        expect( act( a, as[ i ].path.back() ), wa[ i ][ na - 1 ], ca.desc, "A" );
        if ( nested ) expect( nestSeen, wb[ j ][ nb - 1 ], cb.desc, "B" );
        if ( bad.empty() && !nested ) bad = "# call not reached\n" + where;
        for ( size_t k = 0; k < 2; ++k )
        {
          expect( act( b, probes[ k ] ), wb[ j ][ nb + k ], cb.desc, "B" );
          expect( act( a, probes[ k ] ), wa[ i ][ na + k ], ca.desc, "A" );
        }
        expect( destroyInst( b ), wb[ j ].back(), cb.desc, "B" );
        expect( destroyInst( a ), wa[ i ].back(), ca.desc, "A" );
        if ( !bad.empty() ) return reportText( bad );
      }
done:
  st.runs += runs; st.probes = runs;
  return 0;
}

static int replay( const ChartEntry & ce, std::istream & in )
{
  std::string line; std::vector<Op> path; Op o;
  while ( std::getline( in, line ) ) if ( !line.empty() && line[ 0 ] != '#' && parse( line, o ) ) path.push_back( o );
  Exec e( ce );
  for ( const Op & p : path )
  {
    std::cout << "== " << ser( p );
    unsigned v = e.step( p );
    std::cout << "-- observed:\n"; for ( const Rec & r : g.log ) std::cout << "   " << show( ce.desc, r ) << "\n";
    std::cout << "-- leaves " << e.leafOrder << " key " << e.key() << "\n";
    if ( v )
    {
      std::cout << "-- expected:\n"; for ( const Rec & r : e.model.log ) std::cout << "   " << show( ce.desc, r ) << "\n";
      std::cout << "REPLAY-VIOLATION class " << v << "\n" << e.vio << "\n";
      if ( v & opt.own ) return 1;
      return 0;
    }
  }
  if ( e.finish() & opt.own ) { std::cout << "REPLAY-VIOLATION (destruction) " << e.vio << "\n"; return 1; }
  if ( opt.allocFaults && !path.empty() )
  {
    std::unique_ptr< Model > after;
    Node n; Op last = path.back(); path.pop_back(); n.path = path;
    {
      Exec f( ce );
      for ( const Op & p : path ) { f.step( p ); n.hashes.push_back( hashAll( g.log, 7 ) ); }
      n.model.reset( new Model( f.model ) );
      f.step( last );
      after.reset( new Model( f.model ) );
    }
    if ( !allocFaultRuns( ce, n, last, *after ) ) return 1;
  }
  std::cout << "replay ok\n";
  return 0;
}

} // namespace vf

using namespace vf;

int main( int argc, char ** argv )
{
  std::map< std::string, std::string > a;
  for ( int i = 1; i < argc; ++i )
  {
    std::string s = argv[ i ]; size_t q = s.find( '=' );
    a[ s.substr( 0, q ) ] = q == std::string::npos ? "1" : s.substr( q + 1 );
  }
#define NUM( name, field ) if ( a.count( name ) ) opt.field = decltype( opt.field )( strtoul( a[ name ].c_str(), 0, 0 ) )
#define STR( name, field ) if ( a.count( name ) ) opt.field = a[ name ]
  STR( "mode", mode ); STR( "other", other ); NUM( "taildepth", tailDepth ); NUM( "tailcost", tailCost );
  STR( "known", known ); STR( "chart", chart ); STR( "out", out ); STR( "cur", cur ); STR( "vio", vio ); STR( "replay", replay );
  NUM( "own", own ); NUM( "depth", maxDepth ); NUM( "queue", maxQueue ); NUM( "states", maxStates ); NUM( "budget", budget );
  NUM( "term", opTerm ); NUM( "counted", opCounted ); NUM( "stack", opStack ); NUM( "queries", queries ); NUM( "opclear", opClear ); NUM( "tail", tail );
  if ( a.count( "burst" ) ) postBurst = atoi( a[ "burst" ].c_str() );
  NUM( "kinds", evKinds ); NUM( "lateract", cfg.laterActCost ); NUM( "sticky", sticky ); NUM( "window", window ); STR( "digest", digest ); NUM( "stopat", stopAt ); NUM( "allocfaults", allocFaults );
  NUM( "throw", cfg.throwMask ); NUM( "post", cfg.postMask ); NUM( "clear", cfg.clearMask ); NUM( "act", cfg.actMask ); NUM( "excact", cfg.excActMask );
  NUM( "postkinds", cfg.postKinds ); NUM( "postvalue", cfg.postValue ); NUM( "cost", cfg.maxCost ); NUM( "exccost", cfg.excThrowCost ); NUM( "maxposts", cfg.maxPostsPerOp );
  const ChartEntry * ce = 0;
  for ( const ChartEntry & c : charts() ) if ( opt.chart == c.desc.name ) ce = &c;
  if ( !ce ) { std::cerr << "no chart " << opt.chart << "\n"; return 2; }
  if ( !opt.replay.empty() && opt.mode.empty() ) { std::ifstream f( opt.replay.c_str() ); return replay( *ce, f ); }
  openCur();
  if ( !opt.digest.empty() ) digestFile = fopen( opt.digest.c_str(), "wb" );
  signal( SIGALRM, onTick );
  itimerval it = { { 10, 0 }, { 10, 0 } }; setitimer( ITIMER_REAL, &it, 0 );
  double t0 = now();
  const ChartEntry * co = ce;
  for ( const ChartEntry & c : charts() ) if ( opt.other == c.desc.name ) co = &c;
  int rc = opt.mode == "reinit" ? reinitMode( *ce ) : opt.mode == "pair" ? pairMode( *ce, *co ) : search( *ce );
  if ( digestFile ) fclose( digestFile );
  std::ofstream f( opt.out.c_str() );
  std::string sample; for ( char c : st.sample ) if ( c == '\n' ) sample += "; "; else sample += c;
  f << "{\"probes\":" << st.probes << ",\"tails\":" << st.tails << ",\"sample\":\"" << sample << "\",\"chart\":\"" << ce->desc.name << "\",\"states\":" << st.states << ",\"runs\":" << st.runs << ",\"ops\":" << st.ops << ",\"callouts\":" << st.callouts
    << ",\"foreign\":" << st.foreign << ",\"depth\":" << st.maxDepth << ",\"faults\":" << st.faults << ",\"posts\":" << st.posts << ",\"handled\":" << st.handled
    << ",\"thrown\":" << st.thrown << ",\"unexpanded\":" << st.unexpanded << ",\"outcomes\":" << st.outcomes.size() << ",\"allocfaults\":" << st.allocFaults
    << ",\"known\":" << st.known << ",\"picks\":" << st.picks << ",\"defers\":" << st.defers << ",\"complete\":" << ( st.complete ? "true" : "false" ) << ",\"wall\":" << now() - t0 << "}\n";
  return rc;
}
