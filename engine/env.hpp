// The environment every generated chart runs in: it owns all user code of the
// chart (constructors, exit functions, reactions, actions, hooks), logs each
// call and takes its decisions from the explorer.
#ifndef VERIF_ENV_HPP
#define VERIF_ENV_HPP

#include "desc.hpp"

#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/mpl/list.hpp>
#include <boost/intrusive_ptr.hpp>

#include <map>
#include <set>
#include <memory>
#include <typeinfo>
#include <stdexcept>

namespace sc = boost::statechart;
namespace mpl = boost::mpl;

namespace vf {

// ---- violations found inside callbacks (object life time, queries, ...) ----
enum VioClass { V_SEARCH = 1, V_SEQ = 2, V_CONFIG = 4, V_TRIG = 8, V_EVENT = 16,
  V_OUTCOME = 32, V_QUERY = 64, V_MEM = 128, V_CRASH = 256 };

struct EvData;

struct IMachine
{
  virtual ~IMachine() {}
  virtual void initiate() = 0;
  virtual void terminate() = 0;
  virtual void process( int kind, int uid, bool counted ) = 0;
  virtual void clear( int i ) = 0;
  virtual bool terminated() const = 0;
  virtual const sc::event_base * trig() const = 0;
  // innermost states in iteration order, as addresses
  virtual void leaves( std::vector<const void *> & out ) const = 0;
  // cross-checks every query; returns "" or a description of the problem
  virtual std::string queries( const std::vector<const void *> & live ) const = 0;
};

struct Env
{
  const ChartDesc * desc;
  const Cfg * cfg;
  IMachine * machine;                    // null while the machine is being destroyed
  std::vector<Rec> log;
  std::vector<int> dec;                  // decisions of the current operation
  struct Point { std::vector<Choice> menu; };
  std::vector<Point> points;             // choice points met by the current operation
  int nextUid, nextBoom, posts, throws, firstUid;
  bool excPending;
  std::vector<const void *> live;        // per state: most-derived object or null
  long liveEvents;
  int curKindsPosted;
  std::string vio; unsigned vioClass;
  bool checkQueries, checkRefs;
  int maxCallouts;
  bool stopped;
  int nestAt;                            // call before which nest() is run (-1: never)
  void ( *nest )();

  Env() : desc( 0 ), cfg( 0 ), machine( 0 ), nextUid( 0 ), nextBoom( 0 ), posts( 0 ),
    throws( 0 ), firstUid( -1 ), excPending( false ), liveEvents( 0 ), vioClass( 0 ),
    checkQueries( false ), checkRefs( false ), maxCallouts( 400 ), stopped( false ), nestAt( -1 ), nest( 0 ) {}

  void fail( unsigned cls, const std::string & what )
  {
    if ( vioClass == 0 ) { vioClass = cls; vio = what; }
  }

  int choose( const std::vector<Choice> & menu )
  {
    size_t i = points.size();
    points.push_back( Point{ menu } );
    int c = i < dec.size() ? dec[ i ] : menu[ 0 ].code;
    return c;
  }
};
extern Env g;

// ---- events --------------------------------------------------------------
struct EvData
{
  int kind, uid, copies; bool counted;
  unsigned magic;
  EvData( int k, int u, bool c ) : kind( k ), uid( u ), copies( 0 ), counted( c ), magic( 0x5eed ) { ++g.liveEvents; }
  EvData( const EvData & o ) : kind( o.kind ), uid( o.uid ), copies( o.copies + 1 ),
    counted( true ), magic( o.magic ) { ++g.liveEvents; }
  virtual ~EvData() { --g.liveEvents; magic = 0; }
};

template< int K >
struct Ev : sc::event< Ev< K > >, EvData
{
  Ev( int uid, bool counted ) : EvData( K, uid, counted ) {}
};

// exception event and translator of charts with translator=2
struct ExcEv : sc::event< ExcEv > { int id; unsigned magic; explicit ExcEv( int i ) : id( i ), magic( 0xe4c ) {} ~ExcEv() { magic = 0; } };
struct PickyTranslator
{
  template< class Action, class Handler > sc::result operator()( Action action, Handler handler )
  {
    try { return action(); }
    catch ( const Boom & b ) { if ( b.fatal ) throw; return handler( ExcEv( b.id ) ); }
  }
};

inline const EvData * dataOf( const sc::event_base * e )
{
  return dynamic_cast< const EvData * >( e );
}
inline int uidOf( const sc::event_base * e )
{
  if ( e == 0 ) return TRIG_NONE;
  const EvData * d = dataOf( e );
  if ( d ) return d->magic == 0x5eed ? d->uid : int( TRIG_BAD );
  if ( dynamic_cast< const sc::exception_thrown * >( e ) ) return TRIG_EXC;
  if ( const ExcEv * x = dynamic_cast< const ExcEv * >( e ) ) return x->magic == 0xe4c ? int( TRIG_EXC ) : int( TRIG_BAD );
  return TRIG_BAD;
}

template< class F > void withEvent( int kind, int uid, bool counted, F f )
{
  switch ( kind )
  {
#define VF_K( K ) case K: \
    if ( counted ) { boost::intrusive_ptr< const sc::event_base > p( new Ev< K >( uid, true ) ); f( p ); } \
    else { Ev< K > e( uid, false ); f( e ); } break;
    VF_K( 0 ) VF_K( 1 ) VF_K( 2 ) VF_K( 3 ) VF_K( 4 ) VF_K( 5 )
#undef VF_K
    default: std::abort();
  }
}

// ---- callouts ------------------------------------------------------------
inline Rec makeRec( int type, int who, const sc::event_base * e )
{
  Rec r; r.type = type; r.who = who; r.uid = TRIG_NONE; r.copies = 0; r.counted = 0;
  if ( e )
  {
    r.uid = uidOf( e );
    if ( const EvData * d = dataOf( e ) ) { r.copies = d->copies; r.counted = d->counted; }
  }
  r.trig = g.machine ? uidOf( g.machine->trig() ) : int( TRIG_NONE );
  return r;
}

struct Runaway {};

// logs the call and returns the chosen side effect
inline int callout( int type, int who, const sc::event_base * e, bool canUseMachine )
{
  if ( g.nestAt >= 0 && g.nestAt-- == 0 ) g.nest();
  g.log.push_back( makeRec( type, who, e ) );
  if ( int( g.log.size() ) > g.maxCallouts )
  {
    g.fail( V_CRASH, "operation does not come to an end" );
    throw Runaway();
  }
  std::vector<Choice> m;
  sideEffectMenu( *g.cfg, *g.desc, type, who, g.excPending, canUseMachine, g.posts, m );
  return g.choose( m );
}

[[noreturn]] inline void throwBoom( bool fatal = false )
{
  g.excPending = true;
  ++g.throws;
  throw Boom{ g.nextBoom++, fatal };
}

template< class X > struct Poster
{
  X & x;
  void operator()( const boost::intrusive_ptr< const sc::event_base > & p ) { x.post_event( p ); }
  void operator()( const sc::event_base & e ) { x.post_event( e ); }
};

template< class Chart, class X > void sideEffect( X & x, int code )
{
  if ( code == SE_NONE ) return;
  if ( code == SE_THROW || code == SE_FATAL ) throwBoom( code == SE_FATAL );
  if ( code >= SE_CLEAR ) { Chart::clearHist( x, code - SE_CLEAR ); return; }
  if ( code >= SE_POST )
  {
    ++g.posts;
    Poster< X > p = { x };
    for ( int i = 0; i < postBurst; ++i ) withEvent( ( code - SE_POST ) / 2, g.nextUid++, ( ( code - SE_POST ) & 1 ) == 0, p );
  }
}

inline void born( int id, const void * p )
{
  if ( g.live[ id ] != 0 ) g.fail( V_MEM | V_CONFIG, std::string( "state constructed while already alive: " ) + g.desc->states[ id ].name );
  g.live[ id ] = p;
}
inline void alive( int id, const void * p, const char * what )
{
  if ( g.live[ id ] != p ) g.fail( V_MEM, std::string( what ) + " on a state object that is not alive: " + g.desc->states[ id ].name );
}

// constructor of a simple_state<>
inline void entered( int id, const void * p )
{
  int c = callout( K_ENTER, id, 0, false );
  if ( c == SE_THROW || c == SE_FATAL ) throwBoom( c == SE_FATAL );
  born( id, p );
}
// constructor of a state<>
template< class Chart, class X > void enteredFull( X & x )
{
  int c = callout( K_ENTER, X::ID, 0, true );
  sideEffect< Chart >( x, c );
  born( X::ID, &x );
}
template< class X > void dtor( X & x )
{
  alive( X::ID, &x, "destructor" );
  g.log.push_back( makeRec( K_DTOR, X::ID, 0 ) );
  g.live[ X::ID ] = 0;
}
template< class Chart, class X > void exited( X & x )
{
  alive( X::ID, &x, "exit()" );
  int c = callout( K_EXIT, X::ID, 0, true );
  sideEffect< Chart >( x, c );
}
template< class Chart, class X > void acted( X & x, int type, const sc::event_base & e )
{
  if ( X::ID >= 0 ) alive( X::ID, &x, "action" );
  int c = callout( type, X::ID, &e, true );
  sideEffect< Chart >( x, c );
}
// custom reaction: side effect, then the index of the action to take
template< class Chart, class X > int reacted( X & x, const sc::event_base & e )
{
  alive( X::ID, &x, "react()" );
  if ( x.triggering_event() != ( g.machine ? g.machine->trig() : x.triggering_event() ) )
    g.fail( V_TRIG, "state and machine disagree about the triggering event" );
  bool exc = uidOf( &e ) == TRIG_EXC;
  if ( g.checkQueries && g.machine && !exc )
  {
    std::string q = g.machine->queries( g.live );
    if ( !q.empty() ) g.fail( V_QUERY, "in reaction: " + q );
  }
  int c = callout( K_REACT, X::ID, &e, true );
  sideEffect< Chart >( x, c );
  if ( !exc )
  {
    g.excPending = false;
    if ( g.firstUid < 0 ) g.firstUid = uidOf( &e );
  }
  std::vector<Choice> m;
  actionMenu( *g.cfg, *g.desc, X::ID, exc, !exc && uidOf( &e ) != g.firstUid, m );
  return g.choose( m );
}
template< class Chart, class X > void unconsumed( X & x, const sc::event_base & e )
{
  int c = callout( K_UNCONS, MACHINE, &e, true );
  sideEffect< Chart >( x, c );
}

// Allocator that keeps books (used by charts generated with alloc=counting).
struct AllocBook
{
  std::map< void *, std::pair< size_t, const std::type_info * > > blocks;
  long total; long failAt;               // fail the failAt-th allocation from now (-1: never)
  long count;
  AllocBook() : total( 0 ), failAt( -1 ), count( 0 ) {}
};
extern AllocBook book;

template< class T > struct CountingAlloc
{
  typedef T value_type;
  template< class U > struct rebind { typedef CountingAlloc< U > other; };
  CountingAlloc() {}
  template< class U > CountingAlloc( const CountingAlloc< U > & ) {}
  T * allocate( size_t n, const void * = 0 )
  {
    ++book.count;
    if ( book.failAt >= 0 && book.failAt-- == 0 ) throw std::bad_alloc();
    void * p = ::operator new( n * sizeof( T ) );
    book.blocks[ p ] = std::make_pair( n * sizeof( T ), &typeid( T ) );
    return static_cast< T * >( p );
  }
  void deallocate( T * p, size_t n )
  {
    auto i = book.blocks.find( p );
    if ( i == book.blocks.end() ) { g.fail( V_MEM, "deallocating a block the allocator never handed out" ); return; }
    if ( i->second.first != n * sizeof( T ) || *i->second.second != typeid( T ) )
      g.fail( V_MEM, std::string( "block returned with another size or type than it was taken with: " ) + typeid( T ).name() );
    book.blocks.erase( i );
    ::operator delete( p );
  }
};
template< class T, class U > bool operator==( const CountingAlloc< T > &, const CountingAlloc< U > & ) { return true; }
template< class T, class U > bool operator!=( const CountingAlloc< T > &, const CountingAlloc< U > & ) { return false; }

struct ChartEntry
{
  ChartDesc desc;
  IMachine * ( *make )();
};
std::vector< ChartEntry > & charts();
struct Registrar { Registrar( const ChartEntry & e ) { charts().push_back( e ); } };

} // namespace vf

#endif
