// Type identifiers: all pairs and triples of types, in two translation units,
// and all sequences of custom identifier assignments up to a depth.
#include "typeids.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
namespace { struct Tag {}; }
std::vector< boost::intrusive_ptr< const sc::event_base > > TJ::seen;

static std::string trace;
static void fail( const std::string & w ) { printf( "%s\n%s\n", w.c_str(), trace.c_str() ); exit( 1 ); }
static long checks = 0;

template< class Id > void relations( const std::vector< Id > & v, const char * what )
{
  size_t n = v.size();
  for ( size_t i = 0; i < n; ++i ) for ( size_t j = 0; j < n; ++j )
  {
    std::string p = std::string( what ) + " identifiers " + std::to_string( i ) + ", " + std::to_string( j );
    bool eq = v[ i ] == v[ j ], ne = v[ i ] != v[ j ], lt = v[ i ] < v[ j ], gt = v[ i ] > v[ j ], le = v[ i ] <= v[ j ], ge = v[ i ] >= v[ j ];
    ++checks;
    if ( eq != ( i == j ) ) fail( p + ": wrong ==" );
    if ( ne == eq ) fail( p + ": wrong !=" );
    if ( int( eq ) + int( lt ) + int( gt ) != 1 ) fail( p + ": not exactly one of ==, <, >" );
    if ( le != ( lt || eq ) || ge != ( gt || eq ) ) fail( p + ": <= or >= inconsistent" );
    if ( lt != ( v[ j ] > v[ i ] ) ) fail( p + ": < and > inconsistent" );
    for ( size_t k = 0; k < n; ++k ) { ++checks; if ( lt && v[ j ] < v[ k ] && !( v[ i ] < v[ k ] ) ) fail( p + ": < is not transitive" ); }
  }
}

#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
// custom identifiers: slot = (type), value = null or one of two pointers of two types
struct Val { int type; const void * p; };
static int ints[ 2 ]; static char chars[ 2 ];
static Val model[ 5 ] = { { 0, 0 }, { 0, 0 }, { 0, 0 }, { 0, 0 }, { 0, 0 } };
static const M * machine; static const SB * objTI1, * objTJ;
static E< 0 > * e0; static E< 1 > * e1;

template< class T > void setStatic( int v )
{
  if ( v < 2 ) T::template custom_static_type_ptr< int >( ints + v );
  else if ( v < 4 ) T::template custom_static_type_ptr< char >( chars + v - 2 );
  else if ( v == 4 ) T::template custom_static_type_ptr< int >( 0 );
  else T::template custom_static_type_ptr< char >( 0 );
}
static void setSlot( int slot, int v )
{
  switch ( slot )
  {
    case 0: setStatic< TI< 1 > >( v ); break;
    case 1: setStatic< TJ >( v ); break;
    case 2: setStatic< E< 0 > >( v ); break;
    case 3: setStatic< E< 1 > >( v ); break;
    case 4: setStatic< TI< 0 > >( v ); break;
  }
  model[ slot ].type = v < 2 || v == 4 ? 1 : 2;
  model[ slot ].p = v < 2 ? static_cast< const void * >( ints + v ) : v < 4 ? static_cast< const void * >( chars + v - 2 ) : 0;
}
template< class T > void check( int slot )
{
  ++checks;
  if ( model[ slot ].type != 2 && T::template custom_static_type_ptr< int >() != model[ slot ].p ) fail( "custom_static_type_ptr wrong for slot " + std::to_string( slot ) );
  if ( model[ slot ].type != 1 && T::template custom_static_type_ptr< char >() != model[ slot ].p ) fail( "custom_static_type_ptr wrong for slot " + std::to_string( slot ) );
}
template< class B > void checkDyn( const B * o, int slot )
{
  ++checks;
  if ( model[ slot ].type != 2 && o->template custom_dynamic_type_ptr< int >() != model[ slot ].p ) fail( "custom_dynamic_type_ptr wrong for slot " + std::to_string( slot ) );
  if ( model[ slot ].type != 1 && o->template custom_dynamic_type_ptr< char >() != model[ slot ].p ) fail( "custom_dynamic_type_ptr wrong for slot " + std::to_string( slot ) );
}
static const SB * objTI0;
static void checkAll()
{
  check< TI< 1 > >( 0 ); check< TJ >( 1 ); check< E< 0 > >( 2 ); check< E< 1 > >( 3 ); check< TI< 0 > >( 4 );
  checkDyn( objTI1, 0 ); checkDyn( objTJ, 1 ); checkDyn( objTI0, 4 );
  checkDyn< sc::event_base >( e0, 2 ); checkDyn< sc::event_base >( e1, 3 );
}
static long sequences = 0;
static void walk( int depth )
{
  if ( depth == 0 ) return;
  for ( int slot = 0; slot < 5; ++slot ) for ( int v = 0; v < 6; ++v )
  {
    if ( depth > 2 && ( slot > 2 || v == 1 || v == 3 ) ) continue;   // the last two assignments over everything, earlier ones over three types
    size_t n = trace.size();
    trace += "set type " + std::to_string( slot ) + " to value " + std::to_string( v ) + "\n";
    setSlot( slot, v ); ++sequences;
    checkAll();
    walk( depth - 1 );
    trace.resize( n );
  }
}
#endif

int main( int argc, char ** argv )
{
  int depth = 4;
  for ( int i = 1; i < argc; ++i ) if ( !strncmp( argv[ i ], "depth=", 6 ) ) depth = atoi( argv[ i ] + 6 );
  Ids a = idsHere< Tag >(), b = idsOfOtherUnit();
  for ( size_t i = 0; i < a.s.size(); ++i ) if ( !( a.s[ i ] == b.s[ i ] ) ) fail( "state identifier differs between translation units" );
  for ( size_t i = 0; i < a.e.size(); ++i ) if ( !( a.e[ i ] == b.e[ i ] ) ) fail( "event identifier differs between translation units" );
  relations( a.s, "state" ); relations( a.e, "event" );
  relations( b.s, "state" ); relations( b.e, "event" );
  M m; m.initiate();
  // every active state: dynamic = static identifier
  {
    std::vector< const SB * > o;
    o.push_back( m.state_cast< const TA * >() ); o.push_back( 0 ); o.push_back( m.state_cast< const TI< 0 > * >() );
    o.push_back( m.state_cast< const TI< 1 > * >() ); o.push_back( m.state_cast< const TJ * >() );
    for ( size_t i = 0; i < o.size(); ++i ) if ( i != 1 )
    {
      if ( !o[ i ] ) fail( "state_cast misses an active state" );
      for ( size_t j = 0; j < a.s.size(); ++j ) { ++checks; if ( ( o[ i ]->dynamic_type() == b.s[ j ] ) != ( i == j ) ) fail( "dynamic and static identifiers of states disagree" ); }
    }
    if ( m.state_cast< const TB * >() ) fail( "state_cast finds a state that is not active" );
    if ( m.state_downcast< const TI< 0 > * >() != o[ 2 ] || m.state_downcast< const TI< 1 > * >() != o[ 3 ] || m.state_downcast< const TB * >() ) fail( "state_downcast wrong" );
  }
  // events: as made, as passed on the stack, as copied into the queue
  for ( int k = 0; k < 5; ++k )
  {
    boost::intrusive_ptr< const sc::event_base > p( makeEventInOtherUnit( k ) );
    TJ::seen.clear();
    m.process_event( *p );
    m.post_event( p );
    E< 0 > s0; E< 1 > s1; E< 2 > s2; EX sx; EY sy;
    const sc::event_base * st[] = { &s0, &s1, &s2, &sx, &sy };
    m.process_event( *st[ k ] );
    m.post_event( *st[ k ] );
    m.process_event( sx );
    std::vector< boost::intrusive_ptr< const sc::event_base > > all = TJ::seen;
    if ( all.size() != 5 ) fail( "wrong number of events seen" );
    all.push_back( p );
    for ( size_t q = 0; q < all.size(); ++q ) for ( size_t j = 0; j < a.e.size(); ++j )
    {
      ++checks;
      size_t is = q == 3 ? 3 : size_t( k );         // (the fourth one seen is sx)
      if ( ( all[ q ]->dynamic_type() == a.e[ j ] ) != ( j == is ) ) fail( "dynamic and static identifiers of events disagree" );
    }
  }
  TJ::seen.clear();
  sc::exception_thrown x;
  for ( size_t j = 0; j < a.e.size(); ++j ) if ( ( x.dynamic_type() == a.e[ j ] ) != ( j == 5 ) ) fail( "dynamic and static identifiers of exception_thrown disagree" );
  long seqs = 0;
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
  E< 0 > ev0; E< 1 > ev1; e0 = &ev0; e1 = &ev1;
  machine = &m; objTI1 = m.state_cast< const TI< 1 > * >(); objTJ = m.state_cast< const TJ * >(); objTI0 = m.state_cast< const TI< 0 > * >();
  checkAll();
  walk( depth );
  seqs = sequences;
  for ( int s = 0; s < 5; ++s ) setSlot( s, 5 - s % 2 );
  relations( idsHere< Tag >().s, "state" ); relations( idsHere< Tag >().e, "event" );
#endif
  (void)depth;
  printf( "{\"states\":%zu,\"transitions\":%ld,\"traces\":%ld,\"checks\":%ld,\"sample\":\"set TI<1> to an int id, TJ to a char id, E<0> to null, read all back\"}\n", a.s.size() + a.e.size(), seqs, seqs, checks );
}
