// Chart description tables, log records and the choice menus shared by the
// real environment (env.hpp) and the reference model (model.hpp).
// Nothing in this file includes or depends on Boost.Statechart.
#ifndef VERIF_DESC_HPP
#define VERIF_DESC_HPP

#include <string>
#include <vector>
#include <cstdio>
#include <cstdint>

namespace vf {

enum TargetKind { T_NORMAL, T_SHALLOW, T_DEEP };
struct Target { int kind; int st; };

// What a custom react function may do, apart from its side effects.
enum ActType { A_FORWARD, A_DISCARD, A_DEFER, A_TERMINATE, A_TRANSIT };
enum { NO_ACTION = -2, MACHINE = -1 };
struct Action { int type; Target dest; int actx; };

enum ReactType { R_CUSTOM, R_INSTATE, R_TRANSITION, R_TERMINATION, R_DEFERRAL };
enum { BASE_EVENT = -1, EXC_KIND = 100 };
struct Decl { int type; int kind; Target dest; int actx; };

struct StateDesc {
  const char * name;
  int parent, region;
  std::vector<Target> inits;
  bool shallow, deep, full;              // full: derives from state<>
  std::vector<Action> actions;           // menu of the custom reaction(s)
  std::vector<Decl> reactions;
};
struct HistClear { int ctx, region; bool deep; };

struct ChartDesc {
  const char * name;
  std::vector<StateDesc> states;
  int init;
  int translator; bool relaxed;        // translator: 0 none, 1 exception_translator<>, 2 one that only takes some exceptions
  int kinds;                             // number of event kinds
  std::vector<HistClear> clears;
};

// Everything user code can see is logged as a sequence of these.
enum RecType { K_ENTER, K_EXIT, K_DTOR, K_REACT, K_ACTION, K_INSTATE, K_UNCONS };
enum { TRIG_NONE = -1, TRIG_EXC = -9, TRIG_UNKNOWN = -7, TRIG_BAD = -8 };
struct Rec {
  int type, who, uid, copies, trig, counted;
};

inline const char * recName( int t )
{
  static const char * n[] = { "enter", "exit", "dtor", "react", "action", "instate", "unconsumed" };
  return n[ t ];
}
inline std::string evName( int uid )
{
  if ( uid == TRIG_NONE ) return "none";
  if ( uid == TRIG_EXC ) return "EXC";
  if ( uid == TRIG_BAD ) return "BAD";
  if ( uid == TRIG_UNKNOWN ) return "?";
  return "#" + std::to_string( uid );
}
inline std::string show( const ChartDesc & d, const Rec & r )
{
  std::string s = recName( r.type );
  s += " ";
  s += r.who < 0 ? "machine" : d.states[ r.who ].name;
  if ( r.type == K_REACT || r.type == K_ACTION || r.type == K_INSTATE || r.type == K_UNCONS )
    s += " ev=" + evName( r.uid ) + " copies=" + std::to_string( r.copies ) +
      ( r.counted ? " counted" : "" );
  s += " trig=" + evName( r.trig );
  return s;
}

// Side effects available at a user-code call.
enum { SE_NONE = 0, SE_THROW = 1, SE_FATAL = 3, SE_POST = 10, SE_CLEAR = 50 };
// SE_POST + 2*kind: counted event, SE_POST + 2*kind + 1: event by value

struct Choice { int code; int cost; };

struct Cfg {
  // which callouts may throw / post / clear (bit per RecType)
  unsigned throwMask = 0, postMask = 0, clearMask = 0;
  unsigned actMask = 0x1f;               // bit per ActType, for normal events
  unsigned excActMask = 0x1f;            // same, for the exception event
  int postKinds = 1;
  bool postValue = false;                // also post events by value
  int maxCost = 1;                       // deviations per operation
  int excThrowCost = 1;                  // cost of a second throw, while an exception is handled
  int maxPostsPerOp = 3;
  int laterActCost = 1;                  // cost of a non-forwarding reaction in the 2nd, 3rd, ... dispatch of an operation
};

inline int postBurst = 1;                // events posted by one post decision

struct Boom { int id; bool fatal = false; };

// Choices offered at one user-code call. Depends only on the configuration,
// so the model never needs it; only the explorer does.
inline void sideEffectMenu(
  const Cfg & c, const ChartDesc & d, int type, int who, bool excPending, bool canUseMachine,
  int postsSoFar, std::vector<Choice> & out )
{
  out.push_back( Choice{ SE_NONE, 0 } );
  if ( c.throwMask & ( 1u << type ) )
    out.push_back( Choice{ SE_THROW, excPending ? c.excThrowCost : 1 } );
  if ( ( c.throwMask & ( 1u << type ) ) && d.translator == 2 )
    out.push_back( Choice{ SE_FATAL, excPending ? c.excThrowCost : 1 } );
  if ( !canUseMachine ) return;
  if ( ( c.postMask & ( 1u << type ) ) && postsSoFar < c.maxPostsPerOp )
    for ( int k = 0; k < c.postKinds; ++k )
    {
      out.push_back( Choice{ SE_POST + 2 * k, 1 } );
      if ( c.postValue ) out.push_back( Choice{ SE_POST + 2 * k + 1, 1 } );
    }
  if ( c.clearMask & ( 1u << type ) )
    for ( size_t i = 0; i < d.clears.size(); ++i )
      out.push_back( Choice{ SE_CLEAR + int( i ), 1 } );
  (void)who;
}

inline void actionMenu(
  const Cfg & c, const ChartDesc & d, int who, bool exc, bool later, std::vector<Choice> & out )
{
  const std::vector<Action> & a = d.states[ who ].actions;
  unsigned mask = exc ? c.excActMask : c.actMask;
  for ( size_t i = 0; i < a.size(); ++i )
    if ( i == 0 || ( mask & ( 1u << a[ i ].type ) ) )
      out.push_back( Choice{ int( i ), i && later ? c.laterActCost : 0 } );
}

} // namespace vf

#endif
