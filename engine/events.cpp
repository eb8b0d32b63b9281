// C13: every sequence of operations on events, pointers to them and a machine
// that queues, defers and keeps them.
#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/mpl/list.hpp>
#include <deque>
#include <set>
#include "seq.hpp"
using namespace seq;
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
typedef boost::intrusive_ptr< const sc::event_base > Ptr;

static std::map< const void *, int > blocks;     // custom allocator: block -> size
template< class T > struct Alloc
{
  typedef T value_type; template< class U > struct rebind { typedef Alloc< U > other; };
  Alloc() {} template< class U > Alloc( const Alloc< U > & ) {}
  T * allocate( size_t n, const void * = 0 ) { T * p = static_cast< T * >( ::operator new( n * sizeof( T ) ) ); blocks[ p ] = int( n * sizeof( T ) ); return p; }
  void deallocate( T * p, size_t n ) { if ( !blocks.count( p ) || blocks[ p ] != int( n * sizeof( T ) ) ) fail( "event memory returned wrongly" ); blocks.erase( p ); ::operator delete( p ); }
};
template< class T, class U > bool operator==( const Alloc< T > &, const Alloc< U > & ) { return true; }
template< class T, class U > bool operator!=( const Alloc< T > &, const Alloc< U > & ) { return false; }

struct Data;
static std::map< int, const Data * > objects;     // live event objects by serial number
static int serial = 0;
struct Data
{
  int value, id; unsigned magic;
  explicit Data( int v ) : value( v ), id( serial++ ), magic( 55 ) { objects[ id ] = this; }
  Data( const Data & o ) : value( o.value ), id( serial++ ), magic( 55 ) { if ( o.magic != 55 ) fail( "copy of a destroyed event" ); objects[ id ] = this; }
  Data & operator=( const Data & o ) { value = o.value; return *this; }
  virtual ~Data() { if ( magic != 55 ) fail( "event destroyed twice" ); magic = 0; objects.erase( id ); }
  virtual int kind() const = 0;
};
struct E0 : sc::event< E0 >, Data { explicit E0( int v ) : Data( v ) {} int kind() const { return 0; } };
struct E1 : sc::event< E1, Alloc< sc::none > >, Data { int more[ 3 ]; explicit E1( int v ) : Data( v ) { more[ 0 ] = more[ 2 ] = v; } int kind() const { return 1; } };
struct Go : sc::event< Go > {};

enum Mode { DISCARD, DEFER, KEEP, POST, FORWARD, THROW, MODES };
struct Oops {};
struct S;
struct M : sc::state_machine< M, S >
{
  typedef sc::state_machine< M, S > base; using base::post_event;
  int mode; Ptr kept; std::vector< std::pair< int, const Data * > > seen;
  M() : mode( DISCARD ) {}
  void unconsumed_event( const sc::event_base & ) {}
};
struct S : sc::simple_state< S, M >
{
  typedef mpl::list< sc::transition< Go, S >, sc::custom_reaction< sc::event_base > > reactions;
  sc::result react( const sc::event_base & e )
  {
    M & m = outermost_context();
    const Data * d = dynamic_cast< const Data * >( &e );
    if ( d->magic != 55 ) fail( "reaction to a destroyed event" );
    m.seen.push_back( std::make_pair( d->kind() * 100 + d->value, d ) );
    int mode = m.mode; m.mode = DISCARD;
    switch ( mode )
    {
      case DEFER: return defer_event();
      case KEEP: m.kept = e.intrusive_from_this(); return discard_event();
      case POST: post_event( e ); return discard_event();
      case FORWARD: return forward_event();
      case THROW: throw Oops();
      default: return discard_event();
    }
  }
};

static const Data * dataOf( const Ptr & p ) { return p ? dynamic_cast< const Data * >( p.get() ) : 0; }

struct Sys
{
  enum { SLOTS = 2 };
  M * m; Ptr p[ SLOTS ]; E0 * st; void * stMem;
  // model: objects by address of the real object
  struct O { int code; bool stack; };
  std::map< const Data *, O > mo; const Data * mp[ SLOTS ], * mkept; std::deque< const Data * > mq, md; bool active; int value;
  std::vector< std::pair< int, const Data * > > mseen; size_t unknown;

  Sys() : m( new M ), mkept( 0 ), active( false ), value( 0 ), unknown( 0 )
  {
    serial = 0; objects.clear();
    stMem = ::operator new( sizeof( E0 ) ); st = new ( stMem ) E0( 50 );
    mp[ 0 ] = mp[ 1 ] = 0; mo[ st ] = O{ 50, true };
    m->initiate(); active = true;
  }
  // operations: source s = pointer slot 0, 1 or the stack event (2)
  enum { NEW0, NEW1 = NEW0 + 2, ASSIGNPTR = NEW1 + 2, RESET, COPY = RESET + 2, FROMTHIS = COPY + 3, VALUE = FROMTHIS + 3, POSTPTR = VALUE + 3, POSTREF = POSTPTR + 2, PROC = POSTREF + 3,
    TRANSIT = PROC + 2 * MODES, TERM, INIT, DROPKEPT, DESTROY, OPS };
  static std::string src( int s ) { return s == 2 ? "the stack event" : "*p" + std::to_string( s ); }
  std::string name( int o ) const
  {
    static const char * modes[] = { "discard", "defer", "keep", "post again", "forward", "throw" };
    if ( o < NEW1 ) return "p" + std::to_string( o - NEW0 ) + " = new event";
    if ( o < ASSIGNPTR ) return "p" + std::to_string( o - NEW1 ) + " = new event with own allocator";
    if ( o == ASSIGNPTR ) return "p1 = p0";
    if ( o < COPY ) return "p" + std::to_string( o - RESET ) + " = null";
    if ( o < FROMTHIS ) return "p0 = new copy of " + src( o - COPY );
    if ( o < VALUE ) return "p1 = intrusive_from_this of " + src( o - FROMTHIS );
    if ( o < POSTPTR ) return o - VALUE == 0 ? "*p0 = *p1 (values)" : o - VALUE == 1 ? "*p0 = stack event (values)" : "stack event = *p0 (values)";
    if ( o < POSTREF ) return "post p" + std::to_string( o - POSTPTR );
    if ( o < PROC ) return "post " + src( o - POSTREF );
    if ( o < TRANSIT ) { int k = o - PROC; return "process " + src( k / MODES == 1 ? 2 : 0 ) + ", reaction: " + modes[ k % MODES ]; }
    return o == TRANSIT ? "transition" : o == TERM ? "terminate" : o == INIT ? "initiate" : o == DROPKEPT ? "drop the kept pointer" : "destroy and recreate the machine";
  }
  bool enabled( int o )
  {
    if ( o < ASSIGNPTR ) return true;
    if ( o == ASSIGNPTR ) return mp[ 0 ] != mp[ 1 ];
    if ( o < COPY ) return mp[ o - RESET ] != 0;
    if ( o < FROMTHIS ) return o - COPY == 2 || mp[ o - COPY ] != 0;
    if ( o < VALUE ) return o - FROMTHIS == 2 || mp[ o - FROMTHIS ] != 0;
    if ( o < POSTPTR ) { int v = o - VALUE; const Data * a = mp[ 0 ], * b = v == 0 ? mp[ 1 ] : static_cast< const Data * >( st ); return a && b && a->kind() == b->kind() && a != b; }
    if ( o < POSTREF ) return mp[ o - POSTPTR ] != 0;
    if ( o < PROC ) return o - POSTREF == 2 || mp[ o - POSTREF ] != 0;
    if ( o < TRANSIT ) return ( o - PROC ) / MODES == 1 || mp[ 0 ] != 0;
    if ( o == DROPKEPT ) return mkept != 0;
    return true;
  }
  const sc::event_base & ev( int s ) { return s == 2 ? static_cast< const sc::event_base & >( *st ) : *p[ s ]; }
  const Data * obj( int s ) { return s == 2 ? static_cast< const Data * >( st ) : mp[ s ]; }
  // model of "share or copy": an object not known yet must appear
  const Data * share( const Data * d ) { if ( !mo[ d ].stack ) return d; ++unknown; return 0; }
  std::vector< int > copies;              // values of copies that must exist in addition, not yet identified

  void dispatch( const Data * d, int code, int mode )
  {
    // d == 0: a copy that the model has not identified yet
    mseen.push_back( std::make_pair( code, d ) );
    const Data * keep = d && mo.count( d ) && mo[ d ].stack ? 0 : d;
    switch ( mode )
    {
      case DEFER: md.push_back( keep ); dcodes.push_back( code ); break;
      case KEEP: mkept = keep; keptCode = code; break;
      case POST: mq.push_back( keep ); qcodes.push_back( code ); break;
    }
  }
  std::deque< int > qcodes, dcodes; int keptCode;
  void drain()
  {
    while ( !mq.empty() )
    {
      const Data * d = mq.front(); int c = qcodes.front(); mq.pop_front(); qcodes.pop_front();
      dispatchQueued( d, c );
    }
  }
  void dispatchQueued( const Data * d, int c ) { if ( c == -1 ) return; if ( active ) mseen.push_back( std::make_pair( c, d ) ); }

  void apply( int o )
  {
    m->seen.clear(); mseen.clear();
    if ( o < ASSIGNPTR )
    {
      int s = o % 2, k = o >= NEW1; int v = ++value;
      if ( k ) p[ s ] = Ptr( new E1( v ) ); else p[ s ] = Ptr( new E0( v ) );
      mp[ s ] = dataOf( p[ s ] ); mo[ mp[ s ] ] = O{ k * 100 + v, false };
    }
    else if ( o == ASSIGNPTR ) { p[ 1 ] = p[ 0 ]; mp[ 1 ] = mp[ 0 ]; }
    else if ( o < COPY ) { p[ o - RESET ].reset(); mp[ o - RESET ] = 0; }
    else if ( o < FROMTHIS )
    {
      const Data * d = obj( o - COPY ); int code = mo[ d ].code;
      Ptr n; if ( d->kind() ) n = Ptr( new E1( dynamic_cast< const E1 & >( *d ) ) ); else n = Ptr( new E0( dynamic_cast< const E0 & >( *d ) ) );
      p[ 0 ] = n; mp[ 0 ] = dataOf( n ); mo[ mp[ 0 ] ] = O{ code, false };
    }
    else if ( o < VALUE )
    {
      int s = o - FROMTHIS; const Data * d = obj( s ); int code = mo[ d ].code;
      p[ 1 ] = ev( s ).intrusive_from_this();
      const Data * r = dataOf( p[ 1 ] );
      if ( s < 2 && r != d ) fail( "intrusive_from_this of a counted event is another object" );
      if ( s == 2 && ( r == d || r == 0 || r->kind() * 100 + r->value != code ) ) fail( "intrusive_from_this of a stack event is not a copy" );
      mp[ 1 ] = r; mo[ r ] = O{ code, false };
    }
    else if ( o < POSTPTR )
    {
      int v = o - VALUE;
      Data * to = const_cast< Data * >( v == 2 ? static_cast< const Data * >( st ) : mp[ 0 ] ); const Data * from = v == 0 ? mp[ 1 ] : v == 1 ? static_cast< const Data * >( st ) : mp[ 0 ];
      if ( to->kind() ) dynamic_cast< E1 & >( *to ) = dynamic_cast< const E1 & >( *from ); else dynamic_cast< E0 & >( *to ) = dynamic_cast< const E0 & >( *from );
      mo[ to ].code = mo[ from ].code;
    }
    else if ( o < POSTREF ) { m->post_event( p[ o - POSTPTR ] ); mq.push_back( mp[ o - POSTPTR ] ); qcodes.push_back( -2 ); }
    else if ( o < PROC )
    {
      int s = o - POSTREF; const Data * d = obj( s );
      m->post_event( ev( s ) );
      if ( s == 2 ) { mq.push_back( 0 ); qcodes.push_back( mo[ d ].code ); } else { mq.push_back( d ); qcodes.push_back( -2 ); }
    }
    else if ( o < TRANSIT )
    {
      int k = o - PROC, s = k / MODES == 1 ? 2 : 0, mode = k % MODES;
      const Data * d = obj( s );
      m->mode = mode; bool thrown = false;
      try { m->process_event( ev( s ) ); } catch ( const Oops & ) { thrown = true; }
      m->mode = DISCARD;
      if ( active )
      {
        mseen.push_back( std::make_pair( mo[ d ].code, d ) );
        const Data * keep = s == 2 ? 0 : d; int code = s == 2 ? mo[ d ].code : -2;
        if ( mode == THROW )
        {
          if ( !thrown ) fail( "exception swallowed" );
          active = false; mq.clear(); qcodes.clear(); md.clear(); dcodes.clear();
        }
        else
        {
          if ( mode == DEFER ) { md.push_back( keep ); dcodes.push_back( code ); }
          if ( mode == KEEP ) { mkept = keep; keptCode = code; }
          if ( mode == POST ) { mq.push_back( keep ); qcodes.push_back( code ); }
          run();
        }
      }
      else run();
      if ( !active && mode == THROW && thrown && mseen.empty() ) fail( "a terminated machine reacts" );
    }
    else if ( o == TRANSIT )
    {
      m->process_event( Go() );
      // leaving a state moves all deferred events before the posted ones
      if ( active )
      {
        mq.insert( mq.begin(), md.begin(), md.end() ); qcodes.insert( qcodes.begin(), dcodes.begin(), dcodes.end() ); md.clear(); dcodes.clear();
      }
      run();
    }
    else if ( o == TERM || o == INIT )
    {
      if ( o == TERM ) m->terminate(); else m->initiate();
      mq.clear(); qcodes.clear(); md.clear(); dcodes.clear(); active = o == INIT;
    }
    else if ( o == DROPKEPT ) { m->kept.reset(); mkept = 0; }
    else { delete m; m = new M; m->initiate(); active = true; mkept = 0; keptCode = 0; mq.clear(); qcodes.clear(); md.clear(); dcodes.clear(); }
    compare();
  }
  void run()
  {
    while ( !mq.empty() )
    {
      const Data * d = mq.front(); int c = qcodes.front(); mq.pop_front(); qcodes.pop_front();
      if ( active ) mseen.push_back( std::make_pair( c == -2 ? mo[ d ].code : c, c == -2 ? d : 0 ) );
    }
  }
  void compare()
  {
    if ( m->seen.size() != mseen.size() ) fail( std::to_string( m->seen.size() ) + " events processed, expected " + std::to_string( mseen.size() ) );
    for ( size_t i = 0; i < mseen.size(); ++i )
    {
      if ( m->seen[ i ].first != mseen[ i ].first ) fail( "event with type/value " + std::to_string( m->seen[ i ].first ) + " processed, expected " + std::to_string( mseen[ i ].first ) );
      if ( mseen[ i ].second && m->seen[ i ].second != mseen[ i ].second ) fail( "a counted event was processed as another object" );
      if ( !mseen[ i ].second && mo.count( m->seen[ i ].second ) && mo[ m->seen[ i ].second ].stack ) fail( "a stack event was not copied" );
    }
    // which objects must be alive?
    std::set< const Data * > want; size_t copies = 0;
    for ( int s = 0; s < SLOTS; ++s ) if ( mp[ s ] ) want.insert( mp[ s ] );
    want.insert( st );
    for ( size_t i = 0; i < mq.size(); ++i ) if ( qcodes[ i ] == -2 ) want.insert( mq[ i ] ); else ++copies;
    for ( size_t i = 0; i < md.size(); ++i ) if ( dcodes[ i ] == -2 ) want.insert( md[ i ] ); else ++copies;
    if ( mkeptIs() ) { if ( keptCode == -2 ) want.insert( mkept ); else ++copies; }
    std::set< const Data * > have; for ( auto & o : objects ) have.insert( o.second );
    for ( const Data * d : want ) if ( !have.count( d ) ) fail( "an event object is destroyed while something still refers to it" );
    if ( have.size() != want.size() + copies ) fail( std::to_string( have.size() ) + " event objects alive, expected " + std::to_string( want.size() + copies ) );
    for ( int s = 0; s < SLOTS; ++s ) if ( dataOf( p[ s ] ) != mp[ s ] || ( mp[ s ] && mp[ s ]->kind() * 100 + mp[ s ]->value != mo[ mp[ s ] ].code ) ) fail( "pointer or value changed" );
    if ( st->value != mo[ st ].code ) fail( "stack event changed" );
    // forget dead objects
    for ( auto i = mo.begin(); i != mo.end(); ) if ( !have.count( i->first ) ) i = mo.erase( i ); else ++i;
  }
  bool mkeptIs() const { return bool( m->kept ); }
  void finish()
  {
    mseen.clear(); m->seen.clear();
    delete m; p[ 0 ].reset(); p[ 1 ].reset();
    st->~E0(); ::operator delete( stMem );
    if ( !objects.empty() ) fail( "event objects survive everything that referred to them" );
    if ( !blocks.empty() ) fail( "event memory leaks" );
  }
  bool bounded() const { return mq.size() + md.size() <= 4; }
  std::string key() const
  {
    std::string k( 1, char( '0' + active ) ); std::map< const Data *, int > nm;
    auto n = [&]( const Data * d, int c ) { if ( c != -2 ) return std::string( "c" ) + char( '0' + ( c >= 100 ) ); if ( !d ) return std::string( "-" );
      if ( !nm.count( d ) ) { int x = int( nm.size() ); nm[ d ] = x; } return std::to_string( nm[ d ] ) + char( 'a' + d->kind() ); };
    k += n( mp[ 0 ], -2 ); k += n( mp[ 1 ], -2 ); k += mkeptIs() ? n( mkept, keptCode ) : std::string( "." );
    for ( size_t i = 0; i < mq.size(); ++i ) k += "q" + n( mq[ i ], qcodes[ i ] );
    for ( size_t i = 0; i < md.size(); ++i ) k += "d" + n( md[ i ], dcodes[ i ] );
    return k;
  }
};

// n owners of one event: pointers, or entries of a machine's queues
template< class E > static void owners( long n )
{
  current = "  " + std::to_string( n ) + " owners of one event\n";
  const E * e = new E( 7 ); const int id = e->id;
  std::vector< Ptr > v;
  for ( long i = 0; i < n; ++i ) v.push_back( i % 2 && i > 1 ? e->intrusive_from_this() : Ptr( e ) );
  for ( long i = 0; i < n; ++i ) if ( v[ i ].get() != e ) fail( "intrusive_from_this() of a shared event makes another event" );
  for ( long i = 0; i < n; ++i )
  {
    if ( !objects.count( id ) ) fail( "event destroyed while " + std::to_string( n - i ) + " owners were left" );
    v[ i % 2 ? n - 1 - i / 2 : i / 2 ].reset();
  }
  if ( objects.count( id ) ) fail( "event alive without an owner" );
  st.ops += 2 * n; ++st.sequences; ++st.states;

  current = "  post one event " + std::to_string( n ) + " times\n";
  {
    M m; m.initiate();
    { Ptr p( new E( 8 ) ); for ( long i = 0; i < n; ++i ) m.post_event( p ); }
    if ( objects.size() != 1 ) fail( "posting by pointer copies the event" );
    const Data * d = objects.begin()->second;
    m.process_event( Go() );
    if ( long( m.seen.size() ) != n ) fail( "posted " + std::to_string( n ) + " times, processed " + std::to_string( m.seen.size() ) + " times" );
    for ( auto & s : m.seen ) if ( s.second != d ) fail( "another event was processed" );
    if ( !objects.empty() ) fail( "event alive after it was processed" );
    m.mode = DEFER; { Ptr p( new E( 9 ) ); m.process_event( *p ); for ( long i = 1; i < n; ++i ) { m.mode = DEFER; m.process_event( *p ); } }
    if ( objects.size() != 1 ) fail( "deferring a counted event copies or loses it" );
    m.terminate();
    if ( !objects.empty() ) fail( "deferred event survives terminate()" );
  }
  st.ops += 2 * n; ++st.sequences; ++st.states;
}

int main( int argc, char ** argv )
{
  start( argc, argv );
  if ( num( "wide", 0 ) )
  {
    for ( long n : { 1l, 2l, 3l, 127l, 128l, 129l, 255l, 256l, 257l, 32767l, 32768l, 65535l, 65536l, 65537l } ) { owners< E0 >( n ); owners< E1 >( n ); }
    return done();
  }
  if ( num( "bfs", 0 ) ) explore< Sys >( Sys::OPS, int( num( "depth", 8 ) ), 2000000 );
  else enumerate< Sys >( Sys::OPS, int( num( "depth", 4 ) ) );
  return done();
}
