// A small chart shared by two translation units; see typeids.cpp.
#ifndef VERIF_TYPEIDS_HPP
#define VERIF_TYPEIDS_HPP
#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/mpl/list.hpp>
#include <boost/intrusive_ptr.hpp>
#include <vector>

namespace sc = boost::statechart;
namespace mpl = boost::mpl;

template< int K > struct E : sc::event< E< K > > { int v; E() : v( K ) {} };
struct EX : sc::event< EX > {};
struct EY : sc::event< EY > {};

struct TA; struct TB; template< int K > struct TI; struct TJ;
struct M : sc::state_machine< M, TA > { typedef sc::state_machine< M, TA > base; using base::post_event; };
struct TA : sc::simple_state< TA, M, mpl::list< TI< 0 >, TI< 1 > > > {};
template< int K > struct TI : sc::simple_state< TI< K >, TA::orthogonal< K >, TJ > {};
template<> struct TI< 1 > : sc::simple_state< TI< 1 >, TA::orthogonal< 1 > > {};
struct TJ : sc::state< TJ, TI< 0 > >
{
  TJ( my_context c ) : my_base( c ) {}
  typedef sc::custom_reaction< sc::event_base > reactions;
  static std::vector< boost::intrusive_ptr< const sc::event_base > > seen;
  sc::result react( const sc::event_base & e ) { seen.push_back( e.intrusive_from_this() ); return discard_event(); }
};
struct TB : sc::simple_state< TB, M > {};

typedef M::state_base_type SB;
typedef SB::id_type sid;
typedef sc::event_base::id_type eid;

struct Ids { std::vector< sid > s; std::vector< eid > e; };
template< class T > inline Ids idsHere()
{
  Ids r;
  r.s.push_back( TA::static_type() ); r.s.push_back( TB::static_type() ); r.s.push_back( TI< 0 >::static_type() );
  r.s.push_back( TI< 1 >::static_type() ); r.s.push_back( TJ::static_type() );
  r.e.push_back( E< 0 >::static_type() ); r.e.push_back( E< 1 >::static_type() ); r.e.push_back( E< 2 >::static_type() );
  r.e.push_back( EX::static_type() ); r.e.push_back( EY::static_type() ); r.e.push_back( sc::exception_thrown::static_type() );
  return r;
}
Ids idsOfOtherUnit();
sc::event_base * makeEventInOtherUnit( int k );
#endif
