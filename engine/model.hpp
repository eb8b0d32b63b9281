// Reference interpreter of Boost.Statechart's documented semantics
// (doc/reference.html, doc/definitions.html, doc/configuration.html).
// Works on the description tables only; knows nothing about the library.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP

#include "desc.hpp"
#include <deque>
#include <map>
#include <algorithm>
#include <functional>

namespace vf {

struct MEv { int kind, uid, copies; bool counted; };

struct Model
{
  enum Res { FORWARD, DISCARD, DEFER };

  const ChartDesc * d;
  std::vector<char> active, unstable, deferred;
  std::vector< std::vector<int> > inner;
  int outermost;
  std::deque<MEv> posted, pending;       // pending: the deferred events
  std::map< std::pair<int,int>, int > sh, dh;
  bool fullExit;
  MEv trig; bool hasTrig; bool trigExc;
  bool dying;                            // machine destructor running
  int nextUid, nextBoom;

  // per operation
  std::vector<Rec> log;
  const std::vector<int> * dec; size_t decPos;
  std::vector<int> pick; size_t pickPos; // resolves the arbitrary leaf order
  std::vector<int> pickMenu;             // number of alternatives at each pick
  const std::vector<Rec> * observed;     // guides the first attempt
  std::vector< std::vector<char> > snaps; // configurations in between the reactions of an operation
  // statistics
  bool sawExcHandled, sawExcFailed;
  int relaxedThrow;                      // action context of a relaxed transition that failed in its second stage, or -1

  explicit Model( const ChartDesc & dd ) : d( &dd ), outermost( -1 ), fullExit( true ),
    trig(), hasTrig( false ), trigExc( false ), dying( false ), nextUid( 0 ), nextBoom( 0 ),
    dec( 0 ), decPos( 0 ), pickPos( 0 ), observed( 0 ), sawExcHandled( false ), sawExcFailed( false ), relaxedThrow( -1 )
  {
    size_t n = dd.states.size();
    active.assign( n, 0 ); unstable.assign( n, 0 ); deferred.assign( n, 0 );
    inner.resize( n );
    for ( size_t i = 0; i < n; ++i ) inner[ i ].assign( dd.states[ i ].inits.size(), -1 );
  }

  const StateDesc & S( int s ) const { return d->states[ s ]; }
  bool isLeaf( int s ) const { return S( s ).inits.empty(); }

  // ---- user-code calls ---------------------------------------------------
  int next() { size_t i = decPos++; return i < dec->size() ? ( *dec )[ i ] : 0; }

  int trigUid() const { return dying || ( !hasTrig && !trigExc ) ? int( TRIG_NONE ) : trigExc ? int( TRIG_EXC ) : trig.uid; }

  void record( int type, int who, const MEv * e, bool exc )
  {
    Rec r; r.type = type; r.who = who;
    r.uid = exc ? int( TRIG_EXC ) : e ? e->uid : int( TRIG_NONE );
    r.copies = e && !exc ? e->copies : 0; r.counted = e && !exc ? e->counted : 0;
    r.trig = trigUid();
    log.push_back( r );
    if ( log.size() > 2000 ) throw std::string( "model does not terminate" );
  }
  void call( int type, int who, const MEv * e = 0, bool exc = false )
  {
    record( type, who, e, exc );
    int c = next();
    if ( c == SE_NONE ) return;
    if ( c == SE_THROW || c == SE_FATAL ) throw Boom{ nextBoom++, c == SE_FATAL };
    if ( c >= SE_CLEAR )
    {
      const HistClear & h = d->clears[ c - SE_CLEAR ];
      ( h.deep ? dh : sh ).erase( std::make_pair( h.ctx, h.region ) );
      return;
    }
    bool counted = ( ( c - SE_POST ) & 1 ) == 0;
    for ( int i = 0; i < postBurst; ++i ) posted.push_back( MEv{ ( c - SE_POST ) / 2, nextUid++, counted ? 0 : 1, true } );
  }

  // ---- exiting -----------------------------------------------------------
  void unlink( int s )
  {
    int p = S( s ).parent;
    if ( p < 0 ) outermost = -1; else inner[ p ][ S( s ).region ] = -1;
    active[ s ] = 0; unstable[ s ] = 0;
  }
  void destruct( int s )
  {
    record( K_DTOR, s, 0, false );
    if ( deferred[ s ] )
    {
      // all deferred events become pending again, ahead of the posted ones
      posted.insert( posted.begin(), pending.begin(), pending.end() );
      pending.clear();
    }
    deferred[ s ] = 0;
    unlink( s );
  }
  void exitOne( int s )
  {
    int p = S( s ).parent;
    if ( p >= 0 ) unstable[ p ] = 1;     // from just before the first inner exit ...
    unstable[ s ] = 0;                   // ... until right before its own exit
    if ( fullExit )
    {
      try { call( K_EXIT, s ); }
      catch ( ... )
      {
        destruct( s );
        // an outer state left without inner states is gone as well, unless
        // it is the outermost unstable state, which has to handle the exception
        for ( int q = p; q >= 0 && unwound( q ); q = S( q ).parent ) {}
        throw;
      }
      if ( p >= 0 && S( p ).shallow ) sh[ std::make_pair( p, S( s ).region ) ] = s;
      if ( isLeaf( s ) )
        for ( int c = s, h = p; h >= 0; c = h, h = S( h ).parent )
          if ( S( h ).deep ) dh[ std::make_pair( h, S( c ).region ) ] = s;
    }
    destruct( s );
  }
  void exitInner( int s )
  {
    for ( int r = int( inner[ s ].size() ) - 1; r >= 0; --r )
      if ( inner[ s ][ r ] >= 0 ) exitTree( inner[ s ][ r ] );
  }
  void exitTree( int s ) { exitInner( s ); exitOne( s ); }

  void destroyAll()
  {
    fullExit = false;
    if ( outermost >= 0 ) exitTree( outermost );
    fullExit = true;
    wipe();
  }
  void wipe() { posted.clear(); pending.clear(); sh.clear(); dh.clear(); }

  // ---- entering ----------------------------------------------------------
  void enterOne( int s, bool lastOfParent )
  {
    call( K_ENTER, s );                  // if this throws, the state never existed
    active[ s ] = 1;
    int p = S( s ).parent;
    if ( p < 0 ) outermost = s; else inner[ p ][ S( s ).region ] = s;
    unstable[ s ] = !isLeaf( s );
    if ( p >= 0 && lastOfParent ) unstable[ p ] = 0;
  }
  void enterRegion( int s, int r )
  {
    const Target & t = S( s ).inits[ r ];
    enterTarget( t, r + 1 == int( S( s ).inits.size() ) );
  }
  void enterDeep( int s, bool last )
  {
    enterOne( s, last );
    try { for ( size_t r = 0; r < S( s ).inits.size(); ++r ) enterRegion( s, r ); }
    catch ( ... ) { unwound( s ); throw; }
  }
  // An exception leaves the construction of the inner states of s. A state
  // that has no inner state yet is destroyed at once, unless it is the
  // outermost unstable state, which has to handle the exception.
  bool unwound( int s )
  {
    for ( int c : inner[ s ] ) if ( c >= 0 ) return false;
    if ( outermostUnstable() == s ) return false;
    destruct( s );
    return true;
  }
  void enterTarget( const Target & t, bool last )
  {
    std::pair<int,int> key( S( t.st ).parent, S( t.st ).region );
    if ( t.kind == T_NORMAL ) { enterDeep( t.st, last ); return; }
    std::map< std::pair<int,int>, int > & m = t.kind == T_SHALLOW ? sh : dh;
    auto i = m.find( key );
    if ( i == m.end() ) { enterDeep( t.st, last ); return; }
    if ( t.kind == T_SHALLOW ) { enterDeep( i->second, last ); return; }
    enterPath( key.first, Target{ T_NORMAL, i->second }, last );
  }
  // enters all states between ctx (exclusive) and the target, then the target
  void enterPath( int ctx, const Target & t, bool last )
  {
    std::vector<int> path;
    for ( int s = S( t.st ).parent; s != ctx; s = S( s ).parent ) path.push_back( s );
    std::reverse( path.begin(), path.end() );
    enterPathRest( path, 0, t, last );
  }
  void enterPathRest( const std::vector<int> & path, size_t i, const Target & t, bool last )
  {
    if ( i == path.size() ) { enterTarget( t, last ); return; }
    int s = path[ i ];
    enterOne( s, last );
    int nextState = i + 1 < path.size() ? path[ i + 1 ] : t.st;
    int n = int( S( s ).inits.size() ), on = S( nextState ).region;
    try
    {
      for ( int r = 0; r < n; ++r )
        if ( r == on ) enterPathRest( path, i + 1, t, r + 1 == n );
        else enterRegion( s, r );
    }
    catch ( ... ) { unwound( s ); throw; }
  }

  // ---- reactions ---------------------------------------------------------
  std::vector<int> contexts( int s ) const // direct and indirect contexts, machine last
  {
    std::vector<int> v;
    for ( int p = S( s ).parent; p >= 0; p = S( p ).parent ) v.push_back( p );
    v.push_back( MACHINE );
    return v;
  }
  void transit( int s, const Target & t, int actx, const MEv * e, bool exc )
  {
    std::vector<int> cs = contexts( s ), ct = contexts( t.st );
    size_t i = 0;
    while ( std::find( ct.begin(), ct.end(), cs[ i ] ) == ct.end() ) ++i;
    int common = cs[ i ];
    int top = i == 0 ? s : cs[ i - 1 ];  // outermost state to be exited
    bool inside = false;                 // action context below the common context?
    if ( d->relaxed && actx >= 0 )
    {
      if ( actx == s ) inside = true;
      for ( size_t k = 0; k < i; ++k ) if ( cs[ k ] == actx ) inside = true;
    }
    if ( inside )
    {
      exitInner( actx );
      call( K_ACTION, actx, e, exc );
      try { exitTree( top ); }
      catch ( ... )
      {
        // precondition of known finding relaxed-second-stage-exit-throws
        relaxedThrow = actx;
        throw;
      }
    }
    else
    {
      exitTree( top );
      if ( actx != NO_ACTION ) call( K_ACTION, actx, e, exc );
    }
    enterPath( common, t, true );        // the only missing region of common
  }
  void terminateState( int s )
  {
    exitTree( s );
    int p = S( s ).parent;
    while ( p >= 0 )
    {
      bool any = false;
      for ( int c : inner[ p ] ) any = any || c >= 0;
      if ( any ) { unstable[ p ] = 0; break; }
      int pp = S( p ).parent;
      exitOne( p );
      p = pp;
    }
  }
  // is the machine unstable? returns the outermost unstable state or -1
  int outermostUnstable( int s = -2 ) const
  {
    if ( s == -2 ) s = outermost;
    if ( s < 0 ) return -1;
    if ( unstable[ s ] ) return s;
    for ( int c : inner[ s ] ) { int r = c < 0 ? -1 : outermostUnstable( c ); if ( r >= 0 ) return r; }
    return -1;
  }

  Res reactLocal( int s, const MEv * e, bool exc )
  {
    for ( const Decl & r : S( s ).reactions )
    {
      if ( r.kind != BASE_EVENT && r.kind != ( exc ? int( EXC_KIND ) : e->kind ) ) continue;
      switch ( r.type )
      {
        case R_INSTATE:
          if ( r.actx != NO_ACTION ) call( K_INSTATE, r.actx, e, exc );
          return DISCARD;
        case R_TRANSITION: transit( s, r.dest, r.actx, e, exc ); return DISCARD;
        case R_TERMINATION: terminateState( s ); return DISCARD;
        case R_DEFERRAL: deferred[ s ] = 1; return DEFER;
        case R_CUSTOM:
        {
          call( K_REACT, s, e, exc );
          const Action & a = S( s ).actions[ next() ];
          switch ( a.type )
          {
            case A_FORWARD: return FORWARD;
            case A_DISCARD: return DISCARD;
            case A_DEFER: deferred[ s ] = 1; return DEFER;
            case A_TERMINATE: terminateState( s ); return DISCARD;
            case A_TRANSIT: transit( s, a.dest, a.actx, e, exc ); return DISCARD;
          }
        }
      }
    }
    return FORWARD;
  }
  Res reactUp( int s, const MEv * e, bool exc )
  {
    Res r = FORWARD;
    for ( ; s >= 0 && r == FORWARD; )
    {
      int p = S( s ).parent;
      r = reactLocal( s, e, exc );
      if ( r == FORWARD ) s = p;
    }
    return r;
  }

  // ---- exceptions --------------------------------------------------------
  struct Trig { MEv t; bool h, x; };
  Trig saveTrig() const { return Trig{ trig, hasTrig, trigExc }; }
  void restoreTrig( const Trig & t ) { trig = t.t; hasTrig = t.h; trigExc = t.x; }

  // Called while original is pending. Returns normally iff it was handled.
  Res handle( const Boom & original, int lastLeaf )
  {
    if ( outermost < 0 ) throw original;
    int h = outermostUnstable();
    if ( h < 0 ) h = lastLeaf;
    Trig t = saveTrig();
    trigExc = true; hasTrig = false;
    fullExit = false;
    Res r;
    try { r = reactUp( h, 0, true ); }
    catch ( ... ) { restoreTrig( t ); throw; }
    fullExit = true;
    restoreTrig( t );
    if ( r != DISCARD || outermostUnstable() >= 0 ) { sawExcFailed = true; throw original; }
    sawExcHandled = true;
    return DISCARD;
  }
  template< class F > Res translated( F f, int lastLeaf )
  {
    try
    {
      try { return f(); }
      catch ( const Boom & b )
      {
        if ( !d->translator || b.fatal ) throw;
        return handle( b, lastLeaf );
      }
    }
    catch ( const Boom & ) { destroyAll(); throw; }
  }

  // ---- dispatch ----------------------------------------------------------
  void collect( int s, std::vector<int> & v ) const
  {
    if ( s < 0 ) return;
    if ( isLeaf( s ) ) { v.push_back( s ); return; }
    for ( int c : inner[ s ] ) collect( c, v );
  }
  std::vector<int> leaves() const { std::vector<int> v; collect( outermost, v ); return v; }

  int choosePick( std::vector<int> & rest )
  {
    // arbitrary order; put the leaf the implementation visited first in front
    if ( observed && log.size() < observed->size() )
    {
      const Rec & o = ( *observed )[ log.size() ];
      for ( size_t i = 1; i < rest.size(); ++i )
        if ( rest[ i ] == o.who ) { std::swap( rest[ 0 ], rest[ i ] ); break; }
    }
    size_t i = pickPos++;
    if ( pickMenu.size() <= i ) pickMenu.push_back( int( rest.size() ) );
    int c = i < pick.size() ? pick[ i ] : 0;
    int leaf = rest[ c ];
    rest.erase( rest.begin() + c );
    return leaf;
  }

  Res send( const MEv & e )
  {
    snaps.push_back( active );
    Trig t = saveTrig();
    trig = e; hasTrig = true; trigExc = false;
    Res r = FORWARD;
    try
    {
      std::vector<int> rest = leaves();
      while ( r == FORWARD && !rest.empty() )
      {
        int l = rest.size() == 1 ? rest[ 0 ] : -1;
        if ( l < 0 ) l = choosePick( rest ); else rest.clear();
        r = translated( [&] { return reactUp( l, &e, false ); }, l );
      }
      if ( r == FORWARD ) call( K_UNCONS, MACHINE, &e );
    }
    catch ( ... ) { restoreTrig( t ); throw; }
    restoreTrig( t );
    return r;
  }
  void drain()
  {
    while ( !posted.empty() )
    {
      MEv e = posted.front();
      posted.pop_front();
      if ( send( e ) == DEFER ) pending.push_back( e );
    }
  }

  // ---- API ---------------------------------------------------------------
  void begin( const std::vector<int> & decisions, const std::vector<Rec> * obs )
  {
    log.clear(); snaps.clear(); relaxedThrow = -1; dec = &decisions; decPos = 0; pickPos = 0; pickMenu.clear(); observed = obs;
  }
  void apiTerminate()
  {
    translated( [&] { fullExit = true; if ( outermost >= 0 ) exitTree( outermost ); wipe(); return DISCARD; }, -1 );
  }
  void apiInitiate()
  {
    apiTerminate();
    destroyAll();                        // whatever an exception event reaction left behind
    translated( [&] { enterDeep( d->init, true ); return DISCARD; }, -1 );
    drain();
  }
  void apiProcess( int kind, bool counted )
  {
    MEv e{ kind, nextUid++, 0, counted };
    if ( send( e ) == DEFER )
    {
      if ( !e.counted ) { e.copies++; e.counted = true; }
      pending.push_back( e );
    }
    drain();
  }
  void apiDestroy() { dying = true; destroyAll(); dying = false; }
  void apiClear( int i )
  {
    const HistClear & h = d->clears[ i ];
    ( h.deep ? dh : sh ).erase( std::make_pair( h.ctx, h.region ) );
  }

  // canonical form of everything that determines future behaviour
  std::string key() const
  {
    std::string k;
    for ( size_t i = 0; i < active.size(); ++i ) k += active[ i ] ? ( deferred[ i ] ? 'D' : 'A' ) : '.';
    std::map<int,int> ren;
    for ( const std::deque<MEv> * q : { &posted, &pending } )
    {
      k += '|';
      for ( const MEv & e : *q )
      {
        auto r = ren.insert( std::make_pair( e.uid, int( ren.size() ) ) ).first->second;
        k += char( '0' + e.kind ); k += char( '0' + std::min( e.copies, 9 ) ); k += char( 'a' + r );
      }
    }
    for ( const std::map< std::pair<int,int>, int > * m : { &sh, &dh } )
    {
      k += '|';
      for ( auto & e : *m ) { k += std::to_string( e.first.first ) + "." + std::to_string( e.first.second ) + "=" + std::to_string( e.second ) + ","; }
    }
    return k;
  }
};

} // namespace vf

#endif
