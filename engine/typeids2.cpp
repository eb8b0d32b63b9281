#include "typeids.hpp"
namespace { struct Tag {}; }
Ids idsOfOtherUnit() { return idsHere< Tag >(); }
sc::event_base * makeEventInOtherUnit( int k )
{
  switch ( k ) { case 0: return new E< 0 >; case 1: return new E< 1 >; case 2: return new E< 2 >; case 3: return new EX; default: return new EY; }
}
