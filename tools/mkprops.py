#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": ["include/boost/statechart/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SM, SS, ST = "state_machine.hpp", "simple_state.hpp", "state.hpp"

p("C01", "Every event gets one complete reaction search",
  "For every active configuration, a dispatched event is offered to each active innermost state at most once, moving outward from it through its outer states until the first matching reaction that does not forward; forwarding resumes the search outward and then at the remaining innermost states, and after any other outcome nothing else is offered the event. Reactions of one state are tried in their listed order and match the exact event type (or every event, for a base-event reaction); the machine's unconsumed-event hook is called exactly once, with that event, iff the search ended without a consuming, transiting, terminating or deferring reaction.",
  ["configurations", "histories", "inputs"],
  "all reachable active configurations of every chart shape, all assignments of reactions to the states on the search path, all event types",
  "The tests fire a handful of events at hand-picked configurations of one chart; which leaves and which outer states are visited depends on the whole configuration and on every previous transition (the leaf list is permuted by each exit).",
  [SM, SS, "detail/reaction_dispatcher.hpp", "custom_reaction.hpp", "in_state_reaction.hpp", "transition.hpp", "termination.hpp", "deferral.hpp"],
  [("leaf iteration", "state_machine::send_event"), ("outward search", "simple_state::react_impl / local_react"), ("event matching", "detail::reaction_dispatcher")])

p("C02", "A transition exits, acts and enters exactly the right states in order",
  "A transition exits every active state below the innermost common context of source and target, innermost first and highest orthogonal region first, then runs its action once on the triggering event, then enters the target's outer states below that context, the target and the initial states of every region passed, outer first and lowest region first. Exiting calls the state's exit function and only then destroys it; no other state is exited or entered, also when source and target nest, coincide or have been reached through earlier transitions.",
  ["configurations", "histories", "programs"],
  "all source/target pairs of every chart in the chart set, from every reachable configuration including ones with partly terminated regions, after any operation history",
  "TransitionTest samples each transition of one chart from one configuration; the order depends on the current configuration and on bookkeeping left behind by earlier transitions.",
  [SS, SM, ST, "detail/constructor.hpp", "detail/node_state.hpp", "detail/leaf_state.hpp"],
  [("exit order", "node_state::remove_from_state_list / leaf_state::remove_from_state_list"), ("common context", "simple_state::transit_impl"), ("entry order", "detail::constructor")])

p("C03", "The active configuration is always a legal chart configuration",
  "After every call that returns or throws, the reported innermost states are distinct, live, and together with their outer states form a tree that the chart allows: at most one active state per orthogonal region, every non-innermost active state has at least one active inner state, and a region of an active state is empty only because its state terminated. The machine reports being terminated iff no state is active, and the set of states so reported equals the set of state objects alive.",
  ["histories", "configurations", "fault_sequences"],
  "all operation sequences up to the bound over all charts, including exceptions at any user-code call",
  "Tests check the configuration after a few scripted steps without faults.",
  [SM, SS, "detail/state_base.hpp", "detail/node_state.hpp", "detail/leaf_state.hpp"],
  [("leaf list", "state_machine::add_impl / terminate_impl"), ("inner-state slots", "node_state::add_inner_state / remove_inner_state")])

p("C04", "Termination removes exactly the terminated part of the chart",
  "A termination reaction exits the terminating state with all its inner states, innermost and highest region first, and then exactly those outer states that are left without any active inner state, leaving every other region active and reactive. Terminating the machine exits all states in that order, discards all posted and deferred events and forgets all history; destroying a running machine destroys its states in the same order without calling exit functions; and a terminated machine forwards every event to the unconsumed hook and can be initiated again.",
  ["configurations", "histories"],
  "every state of every reachable configuration as the terminating state, followed by every further operation up to the bound, including termination in the middle of queued events",
  "TerminationTest covers one chart along a few paths; multi-step combinations with partly terminated regions, queued events and re-entry are not sampled.",
  [SM, SS, "termination.hpp", "detail/node_state.hpp", "detail/leaf_state.hpp"],
  [("terminate reaction", "state_machine::terminate_as_reaction"), ("cascade", "simple_state::exit_impl"), ("machine end", "state_machine::terminate / ~state_machine")])

p("C05", "Posted events run to completion, in order, exactly once",
  "An event posted from any entry, exit, transition action, reaction or unconsumed-event hook is never processed inside that reaction but after it has completed and before the outermost call returns, in posting order and exactly once, with the identity of the posted object. This also holds while the machine initiates, after the machine terminated itself (the events are then unconsumed) and across exceptions that leave the machine running; only machine termination discards pending events.",
  ["histories", "inputs", "fault_sequences"],
  "all placements of up to the bounded number of posts over the user-code calls of an operation, combined with every reaction to the posted events",
  "No test posts from more than one kind of place at a time, so queue order, nesting and interaction with transitions, termination and exceptions are unsampled.",
  [SM, SS, "event_base.hpp"],
  [("posted queue", "state_machine::post_event_impl / process_queued_events")],
  [("posted events queue", "pending events in posting order")])

p("C06", "Deferred events are neither lost, duplicated, reordered nor changed",
  "An event deferred by a state stays pending, unseen by any state, until a state that has deferred an event is exited; at that moment all deferred events become pending again, ahead of all posted events and in the order they were deferred, and each is processed exactly once with its original payload even if the caller's object is gone. Events deferred again follow the same rule; only termination of the machine discards deferred events.",
  ["histories", "inputs"],
  "all interleavings up to the bound of deferring, posting, transiting, terminating and re-deferring in nested and orthogonal states",
  "DeferralTest and DeferralBug replay four scripts; the splice order with several deferring regions, re-deferral during release and deferral of posted or stack events are not explored.",
  [SM, SS, "deferral.hpp", "event_base.hpp", "event.hpp"],
  [("deferred queue", "state_machine::process_event / process_queued_events / release_events"), ("release", "~simple_state"), ("keeping the event", "event::intrusive_from_this")])

p("C07", "Shallow history re-enters the last direct inner state",
  "Entering a shallow history pseudo state enters the direct inner state that was exited last in that orthogonal region, with its own inner initial states, and the declared default if the region was never exited, its history was cleared, or the machine was terminated since. The memory of each region and of each state with history is independent, survives any number of unrelated transitions, and is not updated by exits that call no exit function or whose exit function throws.",
  ["histories", "configurations"],
  "all operation sequences up to the bound over charts with shallow history at one or several levels and regions",
  "HistoryTest covers one chart with a fixed script per transition; histories are sequences and the tests use each at most a few steps long.",
  [SM, SS, "shallow_history.hpp", "history.hpp"],
  [("saving", "simple_state::check_store_shallow_history"), ("map", "state_machine::store_shallow_history / construct_with_shallow_history / clear_shallow_history")])

p("C08", "Deep history re-enters the last innermost configuration",
  "Entering a deep history pseudo state re-enters the region's most recently exited innermost state through all its outer states, and the declared default (with its initial states) if the region was never exited, its history was cleared, or the machine was terminated since. Each historized state and region is remembered independently, at every level that declares deep history, and exits that call no exit function or whose exit function throws leave the memory unchanged.",
  ["histories", "configurations"],
  "all operation sequences up to the bound over charts with deep or full history nested at several levels",
  "As for shallow history; nested deep history and full history are exercised by a single script.",
  [SM, SS, "deep_history.hpp", "history.hpp", "detail/constructor.hpp"],
  [("saving", "simple_state::check_store_deep_history / store_deep_history_impl"), ("map", "state_machine::store_deep_history / construct_with_deep_history / clear_deep_history")])

p("C09", "An untranslated exception leaves a clean, terminated, reusable machine",
  "When user code (state constructor, exit function, reaction, action) or the allocator throws and the machine does not translate exceptions, the very same exception reaches the caller after every active state has been destroyed once, innermost and highest region first, without any further exit function being called. The machine is then terminated with no pending events, no history and no triggering event, and initiating it behaves like a fresh machine; an exception from the unconsumed-event hook also reaches the caller but destroys nothing.",
  ["fault_sequences", "histories"],
  "an exception at every single user-code call of every operation from every reachable configuration, followed by every further operation up to the bound",
  "InvalidResult/UnsuppressedExceptions style tests throw at a few points of one chart; fault points multiply with configurations.",
  [SM, SS, "null_exception_translator.hpp"],
  [("scope guard", "state_machine::terminator"), ("destruct-only", "state_machine::terminate_impl(false)")])

p("C10", "A translated exception is handled at the right place or rethrown",
  "With exception translation the exception event is offered first to the outermost unstable state, or to the innermost state visited last if the machine is stable, and then only outward; while it is pending, states are destroyed without calling exit functions or saving history. If the reaction consumes it and leaves the machine stable, processing continues normally with full exits; otherwise, or if handling itself throws, the exception is propagated to the caller and all remaining states are destroyed.",
  ["fault_sequences", "configurations"],
  "an exception at every user-code call of every operation from every reachable configuration, with every possible reaction of every state to the exception event, followed by further operations up to the bound",
  "TransitionTest throws at a few transitions and handles in one place; the place where handling starts depends on exactly how far the interrupted operation got.",
  [SM, SS, "exception_translator.hpp"],
  [("handler", "state_machine::handle_exception_event"), ("instability", "state_machine::add / set_outermost_unstable_state")])

p("C11", "State objects and library memory are created, used and freed exactly once",
  "Over any history of operations and faults, each state object is constructed once per entry, receives no call before construction or after destruction, and is destroyed exactly once; all memory comes from and returns to the machine's allocator with matching sizes, and a destroyed machine leaves nothing allocated. A failing allocation at any point propagates to the caller and leaves the machine either in a legal configuration it has between two reactions or cleanly terminated, and usable again.",
  ["fault_sequences", "histories"],
  "an allocation failure at each allocation of each operation of each history up to the bound, plus all fault-free and user-exception histories, under a memory checker",
  "CustomAllocator style tests only count balanced allocations on two scripts and never fail an allocation.",
  ["detail/memory.hpp", "detail/state_base.hpp", "detail/counted_base.hpp", SM, SS, "event.hpp"],
  [("allocation", "detail::allocate / deallocate"), ("ownership", "intrusive_ptr_add_ref / intrusive_ptr_release")])

p("C12", "The triggering event is always the event being reacted to",
  "During every user-code call the machine and its states report as triggering event exactly the event whose processing caused that call (also for posted and deferred events, and the exception event while it is handled), and no event while the machine is being initiated or terminated by the client or is idle. This holds again after every normal return and after every exception.",
  ["histories", "fault_sequences"],
  "every user-code call of every operation over all reachable configurations with exceptions at any point",
  "TriggeringEventTest checks one small machine without nested queues or multiple faults.",
  [SM, SS],
  [("tracking", "state_machine::terminator"), ("query", "state_machine::triggering_event")])

p("C13", "Events keep identity, value and lifetime when queued or shared",
  "Queuing or deferring a reference-counted event keeps that very object alive until it has been processed or discarded and then releases it exactly once, while an event that is not reference-counted is copied once with its most-derived type and value. Copies of events start with their own ownership, and reference counts stay exact when several threads share one event concurrently.",
  ["inputs", "schedules"],
  "all combinations of ownership form, queue path and outcome of processing, and all interleavings up to the bound of threads copying and dropping references to one event",
  "Tests never look at the identity of queued events and never share an event between threads under adverse schedules.",
  ["event_base.hpp", "event.hpp", "detail/counted_base.hpp", "detail/memory.hpp", SM],
  [("clone or share", "event::intrusive_from_this / clone"), ("count", "detail::counted_base<true>")])

p("C14", "Relaxed transition contexts only move the action, nothing else",
  "With relaxed transition contexts enabled, each transition performs the same exits and entries as without, and its action runs exactly once, at the moment when the states inside the action's context have been exited but that context itself still exists; an action of the innermost common context or one of its outer contexts runs where standard UML order puts it. The rest of the machine's guarantees (exceptions, history, termination, queues) are unaffected by the mode.",
  ["configurations", "histories", "programs"],
  "all source/target/action-context triples of the charts from all reachable configurations, with faults at every user-code call",
  "The relaxed variant of the test suite re-runs the same scripts with a handful of extra transitions.",
  [SS, SM],
  [("two-stage exit", "simple_state::transit_impl (relaxed branch)")])

p("C15", "State queries describe exactly the active configuration",
  "While the machine is stable, casting to a state type, by dynamic type or exact type, succeeds iff such a state is active and yields that object (null or bad_cast otherwise); iteration visits every active innermost state exactly once; outer-state links, and context access from any state, lead to the active object of the requested outer state or the machine. All answers agree whether asked through the machine or through a state, from outside or from within a reaction.",
  ["configurations", "histories"],
  "every queryable type in every reachable configuration, at idle and in each reaction call",
  "StateCastTest and StateIterationTest query two charts after a few transitions.",
  [SM, SS],
  [("search", "state_machine::state_cast / state_downcast"), ("iteration", "state_machine::state_iterator"), ("links", "simple_state::outer_state_ptr / context")])

p("C16", "Built-in and native type information give the same behaviour",
  "Every history of operations produces the same observable behaviour whether the library identifies types itself or through native RTTI. Type identifiers are equal for equal types and different for different types, order consistently, dynamic identifiers match static ones for every state and event, and custom type identifiers are kept per type and returned unchanged.",
  ["programs", "histories", "configurations"],
  "all operation sequences up to the bound on all charts in both modes; all pairs of types",
  "The suite runs some tests in both modes but never compares behaviours nor checks all pairs.",
  ["detail/rtti_policy.hpp", SM, SS, "event.hpp"],
  [("identifiers", "detail::rtti_policy"), ("consumers", "reaction_dispatcher, state_downcast, history keys")])

p("C17", "Work queued from any thread runs exactly once, in order, with no lost wake-up",
  "For every interleaving of threads queuing work, terminating and running a blocking or non-blocking worker, every item accepted before termination took effect is executed exactly once by the worker, items of one producer in their queuing order, and a waiting worker always wakes up for new work or termination. There is no data race, deadlock or spurious early return, and after termination took effect no further item runs.",
  ["schedules"],
  "all thread interleavings of the worker harnesses up to the preemption bound (2-4 threads), including spurious wake-ups",
  "FifoSchedulerTest runs whatever schedule the OS picks and uses at most one producer at a time.",
  ["fifo_worker.hpp", "fifo_scheduler.hpp"],
  [("queue and wake-up", "fifo_worker::queue_work_item / dequeue_item"), ("termination", "fifo_worker::terminate / terminated")])

p("C18", "The worker loop executes as many items as asked and reports it",
  "Running a worker or scheduler with a limit executes exactly min(limit, available) items in FIFO order and without a limit all available ones (including items queued by items), returns the number of executed items, and returns at once when a non-blocking queue is empty. Termination is an ordinary queued item, is sticky and prevents later items from running; an exception from an item reaches the caller with that item consumed and the others intact; queuing an item by reference takes it over and empty items are ignored.",
  ["histories", "inputs"],
  "all sequences up to the bound of queue, run-with-limit, terminate and throwing or self-queuing items, against a reference queue",
  "FifoSchedulerTest runs one script and checks a few counters.",
  ["fifo_worker.hpp", "fifo_scheduler.hpp"],
  [("loop", "fifo_worker::operator()"), ("queue", "fifo_worker::queue_work_item / dequeue_item")])

p("C19", "Processor handles create, drive and destroy exactly their own processor",
  "Each created processor receives its constructor arguments and context unchanged, and each operation on its handle (initiate, queue event, terminate, destroy) takes effect on exactly that processor, in the order issued, when the scheduler executes it. Operations on a destroyed or never created processor are silently dropped, events stay alive until processed or dropped, every processor is destroyed exactly once (at the latest with its container), and a processor whose construction fails leaves no trace that later operations can trip over.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences up to the bound of operations on up to three processors and all creation overloads (0-6 arguments), with a failure at every constructor",
  "The scheduler test creates processors on the happy path only and never fails a constructor or uses a stale handle systematically.",
  ["processor_container.hpp", "fifo_scheduler.hpp", "event_processor.hpp", "asynchronous_state_machine.hpp"],
  [("creation", "processor_container::create_processor / create_processor_impl0..6"), ("stale handles", "processor_container::queue_event_impl etc.")])

p("C20", "Asynchronous machines process their events in order across threads",
  "Events queued to an asynchronous state machine from any thread, including itself and machines on other schedulers, are processed one at a time in the scheduler's thread, per sender in sending order, exactly once or never if the machine was destroyed first; a reaction is never interleaved with another reaction of the same scheduler. Events shared between machines on different threads stay valid until the last one is done with them and no interleaving deadlocks or races.",
  ["schedules", "histories"],
  "all interleavings up to the preemption bound of two schedulers in two threads plus a client thread exchanging events",
  "The PingPong example and FifoSchedulerTest run one schedule per execution.",
  ["asynchronous_state_machine.hpp", "fifo_scheduler.hpp", "fifo_worker.hpp", "processor_container.hpp", "event_processor.hpp", "event_base.hpp"],
  [("queueing", "event_processor, fifo_scheduler::queue_event"), ("sharing", "event_base reference count")])

p("C21", "Mode switches change checking and cost, never behaviour",
  "For every history of operations, builds with and without debug checks, with and without thread support, and with default or custom allocators behave identically. In debug builds a reaction that produces no result, or more than one, always trips an assertion, and correct use never does.",
  ["configurations", "histories", "programs"],
  "all operation sequences up to the bound on the chart set, repeated in every build mode and compared; all misuse patterns of one reaction",
  "The suite compiles most tests in one mode and checks only two misuse patterns.",
  ["result.hpp", SM, SS, "detail/counted_base.hpp", "detail/memory.hpp"],
  [("result object", "detail::safe_reaction_result"), ("mode switches", "NDEBUG, BOOST_DISABLE_THREADS, allocator parameters")])

p("C22", "A re-initiated machine behaves like a new one, and machines do not interact",
  "Initiating a machine, whatever it did before (running, terminated, failed), first terminates it as by the terminate call and from then on yields the same behaviour as a newly constructed machine for every continuation. Operations on one machine, including ones performed from inside another machine's reactions, never change what any other machine, of the same or another type, does.",
  ["histories"],
  "all pairs of a history up to the bound and a continuation up to the bound, re-initiated versus fresh; all interleavings of two machines' operation sequences up to the bound",
  "No test compares a reused machine with a fresh one or runs two machines of one type interleaved.",
  [SM, SS],
  [("reset", "state_machine::initiate / terminate_impl"), ("per-machine state", "state_machine data members, rtti_policy id providers")])

p("C23", "Invalid charts and invalid uses are rejected at compile time",
  "A program whose chart is ill-formed (an inner state in a non-existing or mismatching orthogonal region, a transition between different orthogonal regions, history pseudo states without declared history, clearing undeclared history, several regions below a state with deep history) does not compile, and every well-formed chart and use of the documented interface does.",
  ["programs"],
  "all small chart programs obtained from a well-formed chart by one structural mutation out of the enumerated kinds, at every place",
  "Four fixed must-not-compile tests cover one instance of four kinds.",
  [SS, SM, "shallow_history.hpp", "deep_history.hpp"],
  [("static assertions", "simple_state, transit_impl, deep_construct_inner_impl, shallow_history, deep_history, clear_*_history")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x, s)
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
