// C11: a machine whose states, events and machine use one allocator takes no
// byte from anywhere else. Every sequence of operations up to a depth; the
// global operator new is replaced and must not be called by the library, every
// block must come back to the allocator once, with the type and size it left.
#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/mpl/list.hpp>
#include <new>
#include <typeinfo>
#include "seq.hpp"
using namespace seq;
namespace sc = boost::statechart;
namespace mpl = boost::mpl;

static int inside = 0; static long foreign = 0;
void * operator new( std::size_t n ) { if ( inside ) ++foreign; void * p = std::malloc( n ? n : 1 ); if ( !p ) std::abort(); return p; }
void operator delete( void * p ) noexcept { std::free( p ); }
void operator delete( void * p, std::size_t ) noexcept { std::free( p ); }

struct Block { void * p; std::size_t size; const std::type_info * type; };
static Block blocks[ 256 ]; static long failAt = -1, allocations = 0;
static int live() { int n = 0; for ( const Block & b : blocks ) n += b.p != 0; return n; }
static const char * broken = 0;
template< class T > struct Pool
{
  typedef T value_type; template< class U > struct rebind { typedef Pool< U > other; };
  Pool() {} template< class U > Pool( const Pool< U > & ) {}
  T * allocate( std::size_t n, const void * = 0 )
  {
    ++allocations;
    if ( failAt >= 0 && failAt-- == 0 ) throw std::bad_alloc();
    T * p = static_cast< T * >( std::malloc( n * sizeof( T ) ) );
    for ( Block & b : blocks ) if ( b.p == 0 ) { b.p = p; b.size = n * sizeof( T ); b.type = &typeid( T ); return p; }
    broken = "too many blocks"; return p;
  }
  void deallocate( T * p, std::size_t n )
  {
    for ( Block & b : blocks ) if ( b.p == p )
    {
      if ( b.size != n * sizeof( T ) ) broken = "block returned with another size";
      if ( *b.type != typeid( T ) ) broken = "block returned as another type";
      b.p = 0; std::free( p ); return;
    }
    broken = "block returned that was never handed out";
  }
};
template< class T, class U > bool operator==( const Pool< T > &, const Pool< U > & ) { return true; }
template< class T, class U > bool operator!=( const Pool< T > &, const Pool< U > & ) { return false; }
typedef Pool< sc::none > A;

struct Swap : sc::event< Swap, A > {}; struct Step : sc::event< Step, A > {}; struct Later : sc::event< Later, A > {};
struct Post : sc::event< Post, A > {}; struct Back : sc::event< Back, A > {}; struct End : sc::event< End, A > {};
struct Stay : sc::event< Stay, A > {}; struct Bad : sc::event< Bad, A > {}; struct Deep : sc::event< Deep, A > {};

#ifdef TRANSLATOR
typedef sc::exception_translator<> Translator;
#else
typedef sc::null_exception_translator Translator;
#endif
struct Idle;
struct M : sc::state_machine< M, Idle, A, Translator >
{
  typedef sc::state_machine< M, Idle, A, Translator > base;
  using base::post_event;
  void unconsumed_event( const sc::event_base & ) {}
};
struct L0; struct L1; struct R0; struct R1; struct L1a; struct L1b;
struct Busy;
struct Idle : sc::state< Idle, M >
{
  typedef mpl::list< sc::transition< Swap, Busy >, sc::deferral< Later >, sc::custom_reaction< Post >,
    sc::transition< Back, sc::shallow_history< L0 > >, sc::transition< Deep, sc::deep_history< L0 > >, sc::custom_reaction< Bad >
#ifdef TRANSLATOR
    , sc::transition< sc::exception_thrown, Busy >
#endif
    > reactions;
  Idle( my_context c ) : my_base( c ) {}
  sc::result react( const Post & ) { post_event( Swap() ); return discard_event(); }
  sc::result react( const Bad & ) { throw 1; }
};
struct Busy : sc::state< Busy, M, mpl::list< sc::shallow_history< L0 >, sc::shallow_history< R0 > >, sc::has_full_history >
{
  typedef mpl::list< sc::transition< Swap, Idle >, sc::termination< End >, sc::custom_reaction< Bad >
#ifdef TRANSLATOR
    , sc::in_state_reaction< sc::exception_thrown >
#endif
    > reactions;
  Busy( my_context c ) : my_base( c ) {}
  sc::result react( const Bad & ) { throw 1; }
};
struct L0 : sc::simple_state< L0, Busy::orthogonal< 0 > > { typedef mpl::list< sc::transition< Step, L1 >, sc::deferral< Later > > reactions; };
struct L1 : sc::simple_state< L1, Busy::orthogonal< 0 >, L1a, sc::has_deep_history > { typedef mpl::list< sc::transition< Step, L0 >, sc::termination< Stay > > reactions; };
struct L1a : sc::simple_state< L1a, L1 > { typedef mpl::list< sc::transition< Post, L1b > > reactions; };
struct L1b : sc::simple_state< L1b, L1 > { typedef mpl::list< sc::transition< Post, L1a >, sc::deferral< Later > > reactions; };
struct R0 : sc::state< R0, Busy::orthogonal< 1 > >
{
  typedef mpl::list< sc::transition< Step, R1 >, sc::custom_reaction< Stay > > reactions;
  R0( my_context c ) : my_base( c ) { post_event( Later() ); }
  sc::result react( const Stay & ) { post_event( Step() ); return forward_event(); }
};
struct R1 : sc::simple_state< R1, Busy::orthogonal< 1 > > { typedef mpl::list< sc::custom_reaction< Post >, sc::in_state_reaction< Stay > > reactions;
  void exit() { post_event( Stay() ); }
  sc::result react( const Post & ) { return discard_event(); } };

enum { INIT, TERM, FIRST, COUNTED = FIRST + 9, CLEAR = COUNTED + 2, OPS };
static const char * names[] = { "initiate", "terminate", "Swap", "Step", "Later", "Post", "Back", "End", "Stay", "Bad", "Deep", "Swap by pointer", "Later by pointer", "clear history" };

alignas( M ) static unsigned char room[ sizeof( M ) ];
struct System
{
  M * m; int last;
  System() : m( 0 ), last( 0 ) { ++inside; m = new( room ) M; --inside; verify( "construction" ); }
  bool enabled( int ) const { return true; }
  std::string name( int o ) const { return names[ o ]; }
  void verify( const char * when )
  {
    if ( foreign ) fail( std::string( "memory taken from the global heap, not from the allocator of the machine: " ) + when );
    if ( broken ) fail( std::string( broken ) + ": " + when );
  }
  template< class E > void ev( const E & e ) { m->process_event( e ); }
  void apply( int o )
  {
    ++inside;
    try
    {
      switch ( o )
      {
        case INIT: m->initiate(); break;
        case TERM: m->terminate(); break;
        case FIRST + 0: ev( Swap() ); break; case FIRST + 1: ev( Step() ); break; case FIRST + 2: ev( Later() ); break;
        case FIRST + 3: ev( Post() ); break; case FIRST + 4: ev( Back() ); break; case FIRST + 5: ev( End() ); break;
        case FIRST + 6: ev( Stay() ); break; case FIRST + 7: ev( Bad() ); break; case FIRST + 8: ev( Deep() ); break;
        case COUNTED: { boost::intrusive_ptr< const sc::event_base > p( new Swap ); m->process_event( *p ); break; }
        case COUNTED + 1: { boost::intrusive_ptr< const sc::event_base > p( new Later ); m->process_event( *p ); m->post_event( p ); break; }
        case CLEAR: if ( const Busy * b = m->state_cast< const Busy * >() ) const_cast< Busy * >( b )->clear_shallow_history< Busy, 0 >(); break;
      }
    }
    catch ( int ) {}
    --inside;
    verify( names[ o ] );
  }
  void finish()
  {
    ++inside; m->~M(); --inside;
    verify( "destruction" );
    if ( live() ) { for ( const Block & b : blocks ) if ( b.p ) printf( "left: %s\n", b.type->name() ); fail( "blocks survive the machine" ); }
  }
};

int main( int argc, char ** argv )
{
  start( argc, argv );
  enumerate< System >( OPS, int( num( "depth", 5 ) ) );
  if ( allocations == 0 ) fail( "the allocator was never asked for memory" );
  return done();
}
