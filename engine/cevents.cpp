// C13: threads that share one event, under every schedule of the reference count operations
#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/mpl/list.hpp>
#include <vector>
#include "conc.hpp"
namespace sc = boost::statechart;
namespace mpl = boost::mpl;

static int destroyed, created;
CONC_QUIET static void born() { ++created; }
CONC_QUIET static void died( int v ) { ++destroyed; if ( v != 42 ) conc::fail( "an event is destroyed twice or was overwritten" ); }

#ifdef CUSTOM_ALLOC
template< class T > struct Alloc
{
  typedef T value_type; template< class U > struct rebind { typedef Alloc< U > other; };
  Alloc() {} template< class U > Alloc( const Alloc< U > & ) {}
  T * allocate( size_t n, const void * = 0 ) { return static_cast< T * >( ::operator new( n * sizeof( T ) ) ); }
  void deallocate( T * p, size_t ) { ::operator delete( p ); }
};
template< class T, class U > bool operator==( const Alloc< T > &, const Alloc< U > & ) { return true; }
template< class T, class U > bool operator!=( const Alloc< T > &, const Alloc< U > & ) { return false; }
struct Ev;
typedef sc::event< Ev, Alloc< sc::none > > Base;
#else
struct Ev;
typedef sc::event< Ev > Base;
#endif
struct Ev : Base
{
  int value;
  Ev() : value( 42 ) { born(); }
  Ev( const Ev & o ) : Base( o ), value( o.value ) { born(); }
  ~Ev() { died( value ); value = 0; }
};

typedef boost::intrusive_ptr< const sc::event_base > Ptr;
struct Go : sc::event< Go > {};
enum Mode { DISCARD, DEFER, KEEP, POST };
struct St;
struct M : sc::state_machine< M, St >
{
  typedef sc::state_machine< M, St > base; using base::post_event;
  int mode, reactions; Ptr kept;
  M() : mode( DISCARD ), reactions( 0 ) {}
};
struct St : sc::simple_state< St, M >
{
  typedef mpl::list< sc::transition< Go, St >, sc::custom_reaction< Ev > > reactions;
  sc::result react( const Ev & e )
  {
    M & m = outermost_context(); ++m.reactions;
    if ( e.value != 42 ) conc::fail( "reaction to a destroyed event" );
    int mode = m.mode; m.mode = DISCARD;
    switch ( mode )
    {
      case DEFER: return defer_event();
      case KEEP: m.kept = e.intrusive_from_this(); return discard_event();
      case POST: post_event( e ); return discard_event();
      default: return discard_event();
    }
  }
};

// one thread: own pointer p to the shared event, second slot s, own machine
struct Thread { Ptr p, s; M * m; };
static Thread * th[ 4 ]; static const Ev * shared_;

struct S : conc::Scenario
{
  std::vector< std::string > prog;
  explicit S( const std::string & d )
  {
    std::string cur; for ( char c : d ) if ( c == ',' ) { prog.push_back( cur ); cur.clear(); } else cur += c;
    prog.push_back( cur );
  }
  int threads() { return int( prog.size() ); }
  void setup()
  {
    reset();
    Ptr first( new Ev );
    shared_ = static_cast< const Ev * >( first.get() );
    for ( size_t i = 0; i < prog.size(); ++i ) { th[ i ] = new Thread; th[ i ]->p = first; th[ i ]->m = 0; if ( prog[ i ].find_first_of( "qxdkogt" ) != std::string::npos ) { th[ i ]->m = new M; th[ i ]->m->initiate(); } }
  }
  CONC_QUIET static void reset() { created = destroyed = 0; }
  CONC_QUIET static int madeMore( int n ) { return created == n; }
  void body( int t )
  {
    Thread & me = *th[ t ]; M * m = me.m; int posted = 0;
    for ( char c : prog[ t ] )
      switch ( c )
      {
        case 'c': me.s = me.p; break;
        case 'e': me.s.reset(); break;
        case 'z': me.p.reset(); break;
        case 's': me.p.swap( me.s ); break;
        case 'f': if ( me.p ) { Ptr q = me.p->intrusive_from_this(); if ( q.get() != me.p.get() ) conc::fail( "intrusive_from_this of a shared event makes a copy" ); me.s = q; } break;
        case 'v': if ( me.p ) { Ev copy( static_cast< const Ev & >( *me.p ) ); if ( copy.ref_counted() || copy.value != 42 ) conc::fail( "a copied event is counted" ); } break;
        case 'n': if ( me.p ) { me.s = Ptr( new Ev( static_cast< const Ev & >( *me.p ) ) ); if ( me.s->ref_count() != 1 ) conc::fail( "a copied event starts with a count" ); } break;
        case 'q': if ( me.p ) { m->post_event( me.p ); ++posted; } break;
        case 'x': if ( me.p ) m->process_event( *me.p ); break;
        case 'd': if ( me.p ) { m->mode = DEFER; m->process_event( *me.p ); } break;
        case 'k': if ( me.p ) { m->mode = KEEP; m->process_event( *me.p ); } break;
        case 'o': if ( me.p ) { m->mode = POST; m->process_event( *me.p ); } break;
        case 'g': m->process_event( Go() ); break;
        case 't': m->terminate(); break;
        case 'r': if ( me.p && static_cast< const Ev & >( *me.p ).value != 42 ) conc::fail( "wrong value" ); break;
        case 'a': if ( me.p && me.p->ref_count() < 1 ) conc::fail( "count of a held event is " + std::to_string( me.p->ref_count() ) ); break;
      }
    delete m; delete &me;
  }
  CONC_QUIET void finish( bool )
  {
    if ( destroyed != created ) conc::fail( std::to_string( created ) + " events created, " + std::to_string( destroyed ) + " destroyed" );
  }
};
int main( int argc, char ** argv ) { return conc::main( argc, argv, []( const std::string & n ) -> conc::Scenario * { return new S( n ); } ); }
