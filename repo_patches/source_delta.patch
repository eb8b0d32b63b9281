From d781d59b0e5da6341ab9b8fd4e6fd80ef4b2a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 1/8] fix: initiate() must not construct the initial state in a
 machine that is still running

If an exit() member function throws during the implied terminate() and the
exception event is handled by a reaction, states (and queued events and history)
survive terminate(). initiate() then constructed the initial state on top of
them, leaving two active states in one region and a dangling state pointer.
---
 include/boost/statechart/state_machine.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/statechart/state_machine.hpp b/include/boost/statechart/state_machine.hpp
index 25afad5..294fef0 100644
--- a/include/boost/statechart/state_machine.hpp
+++ b/include/boost/statechart/state_machine.hpp
@@ -244,6 +244,9 @@ class state_machine : noncopyable
     void initiate()
     {
       terminate();
+      // If an exit member function has thrown and the resulting exception event
+      // was handled by a reaction then the machine could still be running here
+      terminate_impl( false );
 
       {
         terminator guard( *this, 0 );
-- 
2.43.0


From cae0762f49c08c51c28ba1bc0fb66ff38ae6e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 2/8] fix: relaxed transition contexts: the transition source
 can be the action context

With BOOST_STATECHART_RELAX_TRANSITION_CONTEXT defined, the documentation allows
the transition action to be a member of the transition source. This did not
compile, because context_ptr<>() only finds outer contexts.
---
 include/boost/statechart/simple_state.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index eb1d438..44d80cc 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -767,8 +767,10 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       }
       else
       {
+        // context_ptr<>() cannot be used here as it only finds *outer* contexts
+        // but the transition context can also be the transition source
         typename real_transition_context_type::inner_context_ptr_type
-          pTransitionContext = context_ptr< real_transition_context_type >();
+          pTransitionContext( &context< real_transition_context_type >() );
         outermostContextBase.terminate_as_part_of_transit(
           *pTransitionContext );
         transitionAction( *pTransitionContext );
-- 
2.43.0


From 985a8ead016c585a6ec1f1c36f668dab41bf9244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 3/8] fix: a processor whose constructor throws must not stay
 in the container without a processor

---
 include/boost/statechart/processor_container.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index fc61656..27ef3b4 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -311,8 +311,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1 >
@@ -320,8 +320,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2 >
@@ -329,8 +329,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2, typename Arg3 >
@@ -338,8 +338,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2, Arg3 arg3 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -350,8 +350,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -362,8 +362,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -374,8 +374,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5, Arg6 arg6 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5, arg6 ) );
+      processorSet_.insert( pProcessor );
     }
 
     void destroy_processor_impl( const processor_handle & processor )
-- 
2.43.0


From 9c6482c7a5b5485234a6fcbee8b6b091238da552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 4/8] fix: reject inner initial lists naming a state more than
 once

A chart whose inner initial list names the same state for two orthogonal
regions compiled and then failed an internal assertion (or overwrote the
inner state pointer of the region) when the state was entered.
---
 include/boost/statechart/simple_state.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index 44d80cc..683339e 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -32,6 +32,7 @@
 #include <boost/mpl/pop_front.hpp>
 #include <boost/mpl/push_front.hpp>
 #include <boost/mpl/clear.hpp>
+#include <boost/mpl/count.hpp>
 #include <boost/mpl/placeholders.hpp>
 #include <boost/mpl/bool.hpp>
 #include <boost/mpl/integral_c.hpp>
@@ -892,6 +893,14 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
             typename current_inner::context_type::inner_initial_list,
             typename current_inner::orthogonal_position >::type >::value ) );
 
+        // If you receive a
+        // "use of undefined type 'boost::STATIC_ASSERTION_FAILURE<x>'" or
+        // similar compiler error here then a state appears more than once in
+        // the inner initial list of its outer state.
+        BOOST_STATIC_ASSERT( ( mpl::count<
+          typename current_inner::context_type::inner_initial_list,
+          current_inner >::value == 1 ) );
+
         current_inner::deep_construct( pInnerContext, outermostContextBase );
         deep_construct_inner< typename mpl::pop_front< InnerList >::type >(
           pInnerContext, outermostContextBase );
-- 
2.43.0


From f994d848f50fb2fa39b14aa1a18e328c354a0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 5/8] fix: fifo_worker.hpp and processor_container.hpp include
 the header that declares none

---
 include/boost/statechart/fifo_worker.hpp         | 2 ++
 include/boost/statechart/processor_container.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/boost/statechart/fifo_worker.hpp b/include/boost/statechart/fifo_worker.hpp
index 75d3ad6..7226952 100644
--- a/include/boost/statechart/fifo_worker.hpp
+++ b/include/boost/statechart/fifo_worker.hpp
@@ -8,6 +8,8 @@
 
 
 
+#include <boost/statechart/detail/memory.hpp>
+
 #include <boost/assert.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/function/function0.hpp>
diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index 27ef3b4..83cbf6e 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -10,6 +10,7 @@
 
 #include <boost/statechart/event_base.hpp>
 #include <boost/statechart/event_processor.hpp>
+#include <boost/statechart/detail/memory.hpp>
 
 #include <boost/assert.hpp>
 #include <boost/ref.hpp>
-- 
2.43.0


From bdca1dd275943a6556979ac7e67da1fafc334802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 6/8] fix: state_machine.hpp compiles with C++ exception
 handling turned off

doc/configuration.html promises that exception handling can be turned off,
but throw-expressions made the header ill-formed in that mode (clang
rejects them always, gcc on instantiation).
---
 include/boost/statechart/state_machine.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/statechart/state_machine.hpp b/include/boost/statechart/state_machine.hpp
index 294fef0..cd26158 100644
--- a/include/boost/statechart/state_machine.hpp
+++ b/include/boost/statechart/state_machine.hpp
@@ -34,6 +34,8 @@
 #include <boost/assert.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/polymorphic_cast.hpp> // boost::polymorphic_downcast
+#include <boost/throw_exception.hpp>
+#include <boost/core/no_exceptions_support.hpp> // BOOST_RETHROW
 // BOOST_NO_EXCEPTIONS, BOOST_MSVC, BOOST_MSVC_STD_ITERATOR
 #include <boost/config.hpp>
 
@@ -161,7 +163,7 @@ struct state_cast_impl_reference_target
   template< class Target >
   static Target not_found()
   {
-    throw std::bad_cast();
+    boost::throw_exception( std::bad_cast() );
   }
 };
 
@@ -761,7 +763,7 @@ class state_machine : noncopyable
       if ( terminated() )
       {
         // there is no state that could handle the exception -> bail out
-        throw;
+        BOOST_RETHROW
       }
 
       // If we are stable, an event handler has thrown.
@@ -798,7 +800,7 @@ class state_machine : noncopyable
       if ( ( reactionResult != detail::do_discard_event ) ||
         ( get_pointer( pOutermostUnstableState_ ) != 0 ) )
       {
-        throw;
+        BOOST_RETHROW
       }
 
       return detail::do_discard_event;
-- 
2.43.0


From 47201ca7478e4f029056ed832d50d2b5e0077807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 7/8] fix: charts with events in an unnamed namespace compile
 with clang

detail::no_context<>::no_function was odr-used (its address is a template
argument) but never defined, which is ill-formed when Event has internal
linkage; clang rejects such programs.
---
 include/boost/statechart/detail/reaction_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/statechart/detail/reaction_dispatcher.hpp b/include/boost/statechart/detail/reaction_dispatcher.hpp
index 160a456..2e6363c 100644
--- a/include/boost/statechart/detail/reaction_dispatcher.hpp
+++ b/include/boost/statechart/detail/reaction_dispatcher.hpp
@@ -30,7 +30,7 @@ namespace detail
 template< class Event >
 struct no_context
 {
-  void no_function( const Event & );
+  void no_function( const Event & ) {}
 };
 
 //////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 688bec7d9edcef84fabe124e3cd5626bc480283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 8/8] fix: state_cast to a reference finds the state when
 exception handling is turned off

Without exceptions the first active state of another type made the failing
dynamic_cast abort the program, although the target was active.
---
 include/boost/statechart/state_machine.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/boost/statechart/state_machine.hpp b/include/boost/statechart/state_machine.hpp
index cd26158..d149d03 100644
--- a/include/boost/statechart/state_machine.hpp
+++ b/include/boost/statechart/state_machine.hpp
@@ -112,6 +112,14 @@ struct state_cast_impl_pointer_target
       return pState;
     }
 
+    #ifdef BOOST_NO_EXCEPTIONS
+    template< class Target, class StateBaseType >
+    static bool castable( const StateBaseType * )
+    {
+      return true; // a failed cast yields a null pointer
+    }
+    #endif
+
     template< class Target, class IdType >
     static IdType type_id()
     {
@@ -148,6 +156,15 @@ struct state_cast_impl_reference_target
     return *pState;
   }
 
+  #ifdef BOOST_NO_EXCEPTIONS
+  template< class Target, class StateBaseType >
+  static bool castable( const StateBaseType * pState )
+  {
+    return
+      dynamic_cast< typename remove_reference< Target >::type * >( pState ) != 0;
+  }
+  #endif
+
   template< class Target, class IdType >
   static IdType type_id()
   {
@@ -304,6 +321,9 @@ class state_machine : noncopyable
           // typically small compared to the cycles dynamic_cast needs
           #ifndef BOOST_NO_EXCEPTIONS
           try
+          #else
+          // A failed cast to a reference cannot be caught -> avoid it
+          if ( impl::template castable< Target >( pCurrentState ) )
           #endif
           {
             Target result = dynamic_cast< Target >(
-- 
2.43.0

