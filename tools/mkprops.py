#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is reviewable)."""
import json, os
H = "include/hsmcpp/hsm.hpp"
I = "src/HsmImpl.cpp"
IT = "src/HsmImplTypes.cpp"
B = "src/HsmEventDispatcherBase.cpp"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe="callbacks and public API results"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=None)))


prop("C01", "Active configuration is always well-formed and matches entry/exit history",
     "After initialization, at every point at which user code can run, the list of active states holds no state twice, is never empty once start-up is over, and contains exactly the states whose entry completed and that were not left by an accepted exit phase since. "
     "A state whose entry handler runs is not active yet, a state whose exit handler or state-changed handler runs is active, and is reported so by the activity queries. "
     "A state's entry and exit alternate: it is never entered again while active, nor exited while inactive.",
     ["programs", "histories", "inputs"],
     "for every machine (hierarchy, transitions, conditions, parallel regions, history, final states), every sequence of events and every pattern of handlers refusing entry or exit",
     "The suite checks the active list at the end of some forty hand-written scenarios with two to eight states; it never looks at it inside callbacks and samples neither machines nor event sequences.",
     [I, H], [("mActiveStates maintenance in exit, replace, add and both rollbacks", I), ("isStateActive/getActiveStates/getLastActiveState", I)],
     [("active list", "ordered list of active states")])
prop("C02", "Events run to completion, one at a time, in FIFO order",
     "Events posted to a machine are processed one at a time in the order posted, each completely - including the entry-point, history and final-state steps it causes, which go before any other queued event - before the next one starts. "
     "An event posted from inside a callback or a state action is queued behind everything posted before it and never processed inside that callback. "
     "No posted event is lost, duplicated or processed after the queue was drained without a new post.",
     ["histories", "programs", "inputs"],
     "for every machine and every interleaving of posts (from outside and from inside any callback) with dispatcher turns",
     "Tests post events one by one and wait for the outcome, so queues longer than two or three, posts from inside callbacks while entry-point or final-state steps are pending, and their relative order are hardly exercised.",
     [I], [("mPendingEvents push_front/push_back", I), ("dispatchEvents: one event per dispatcher turn, re-emits while the queue is not empty", I)],
     [("pending events", "queue of events still to be processed")])
prop("C03", "An event fires exactly the enabled transitions, innermost state first",
     "An event fires, for each active state considered from the most recently activated on, all its transitions for that event whose condition yields the expected value for the event's arguments and whose target's substate chain can be entered, in registration order; a state is skipped if one of its descendants took the event, or if it was exited meanwhile. "
     "Internal self-transitions run only the transition callback, external self-transitions exit and re-enter the state and its children. "
     "If nothing is enabled no state is entered or exited.",
     ["programs", "inputs", "histories"],
     "for every machine, active configuration, condition valuation, event and argument vector",
     "The suite has a handful of conditional/parallel/self transitions, each in one configuration; priorities between levels, several enabled transitions at once and conditions depending on arguments are sampled at one point each.",
     [I, H], [("findTransitionTarget", I), ("doTransition: reverse iteration, acceptedStates", I), ("executeSelfTransitions", I)])
prop("C04", "Exit, transition, entry and state callbacks run in the documented order",
     "For an executed external transition, exit handlers run first, for the active descendants of the source before the source itself, then the transition callback, then the target's entry handler, then its state-changed handler; exit and entry actions run directly after the respective handler accepted. "
     "Transition, entry, state-changed and failure callbacks receive exactly the arguments given with the event, also in the follow-up steps of entry points, history and final states. "
     "Every registered callback of a step is called exactly once and no callback of a state or transition not involved is called.",
     ["programs", "inputs", "histories"],
     "for every machine, nesting depth, parallel configuration, event and argument vector",
     "Order is asserted in a few scenarios with one or two levels, arguments in a few with one transition; combinations of depth, parallel regions and generated follow-up steps are not covered.",
     [I], [("executeExitTransition", I), ("processExternalTransition", I), ("onStateEntering/onStateChanged/onStateExiting", I), ("event arguments carried to follow-up events", I)])
prop("C05", "A refused transition leaves the machine as it was",
     "When an exit handler refuses, the states already exited by this transition are re-entered, parents before children, with their entry and state-changed handlers called, the refusing state and its ancestors stay active, and neither transition callback nor target entry happens. "
     "When the entry handler of the only target refuses, all states exited by this transition are re-entered in the same way. "
     "In both cases the set of active states and the order of parents before children are as before the event, a refusal during this re-entry is ignored, and later events behave as if the refused transition had not been tried; a refusal in a follow-up step (entry point, history restoration) stops only that branch.",
     ["programs", "histories", "fault_sequences"],
     "for every machine, every subset of handlers refusing at any time, and every event sequence before and after",
     "Tests block a single handler of a top-level state or of one child and then stop; multi-level or parallel exits, refusals of one of several parallel transitions and behaviour after the refusal are not exercised.",
     [I], [("rollback in executeExitTransition", I), ("rollback in processExternalTransition", I)])
prop("C06", "Entering a parent enters all and only its matching entry points, atomically",
     "When a state with entry points becomes active by a transition or at start-up, all entry points whose event filter and condition match the triggering event and arguments are entered, in registration order and recursively, and no other substate is. "
     "This happens before any other queued event is processed and cannot be interrupted by clearing the queue or by a final state's event, and it is neither repeated nor, unless an entry handler refuses, reported as a failed transition. "
     "A transition into a parent none of whose entry points match is not executed.",
     ["programs", "inputs", "histories"],
     "for every machine, nesting, set of conditional and event-specific entry points, queue content and clear requests",
     "Tests cover single-level and two-level entry points with an empty queue; several parents entered by the same event, conditional alternatives for one substate, and a clear request between parent and substate entry are never combined.",
     [I], [("getEntryPoints", I), ("ENTRYPOINT events pushed to the front of the queue", I), ("registerSubstateEntryPoint", I)])
prop("C07", "History states restore exactly the last exited configuration",
     "A transition to a shallow history state makes active the parent and the direct substates that were active when the parent was last exited (whose own entry points then apply); a deep one all its innermost active descendants together with their ancestors. "
     "If the parent was not exited before, the default target is entered with the default-transition callback called once, or the parent's entry points if there is no default, unless handlers refuse during the restoration. "
     "Other parallel regions are untouched and no callback of theirs is called.",
     ["histories", "programs"],
     "for every machine with shallow/deep history states at any level, and every sequence of entries, exits and refusals before the history transition",
     "Seven scenarios, each with a single exit and a single restoration; no parallel regions beside the history parent, no repeated restorations, no queue content.",
     [I], [("updateHistory", I), ("transitionToPreviousActiveStates", I), ("transitionToDefaultHistoryState", I)],
     [("previousActiveStates", "states stored for each history state")])
prop("C08", "Final states notify their parent exactly once, when the last region finishes",
     "Entering a final substate posts, ahead of all queued events and with the same arguments, the event registered for it (or the triggering event if none) exactly when no non-final substate of its parent is active any more, and otherwise nothing. "
     "Top-level final states post nothing. "
     "A final state has no outgoing behaviour of its own: the machine stays in it until a transition of an ancestor fires.",
     ["programs", "histories"],
     "for every machine with final states at any level, parallel regions finishing in any order, and any queue content",
     "Tests let each region finish in one fixed order with an empty queue.",
     [I], [("processFinalStateTransition", I), ("hasActiveChildren", I)])
prop("C09", "State actions run once per entry and exit, in order, with their arguments",
     "Each time a state is entered or exited, after its handler accepted, all actions registered for that trigger are executed once, in registration order: timers are started, stopped or restarted with the registered id, interval and mode and the registered event is posted with the registered arguments. "
     "They are executed for no other state, never when the handler refused. "
     "Registration refuses actions with missing or wrongly typed arguments, and a refused registration has no effect.",
     ["programs", "inputs", "histories"],
     "for every machine, set of actions, argument vectors and event sequence, including refused entries and exits",
     "Tests use one action of each kind on a flat machine.",
     [I, H], [("registerStateAction argument validation", I), ("executeStateAction", I)])
prop("C10", "An event's failure is reported exactly once, and only if nothing happened",
     "For each processed event the failed-transition callback is called exactly once if no transition was carried out for it (nothing enabled, an exit or the last target's entry refused), with the states that were active when processing started, the event and its arguments, after all other callbacks of that event. "
     "It is not called when at least one transition was carried out. "
     "An internally generated entry-point or history step is reported only if a handler refused it.",
     ["programs", "histories", "inputs"],
     "for every machine, configuration, refusal pattern and event",
     "The callback is tested in three scenarios with one active state.",
     [I], [("doTransition result aggregation", I)])
prop("C11", "isTransitionPossible predicts without side effects",
     "isTransitionPossible answers true exactly if, starting from some active state and following, for each event still queued, the first transition enabled at the nearest level having any transition for it, the reached state likewise has an enabled transition for the event with the given arguments. "
     "The query changes nothing: no callback other than conditions is called, and configuration, queue, timers and history are as before. "
     "It never blocks the calling thread for good, also when a condition callback uses the machine.",
     ["programs", "inputs", "histories"],
     "for every machine, active configuration, queue content, event, arguments and condition valuation",
     "Three tests with at most one queued event.",
     [I], [("isTransitionPossible/checkTransitionPossibility", I)])
prop("C12", "A synchronous transition returns when, and only when, its outcome is known",
     "A synchronous transition request returns after the event and all entry-point and history steps it causes were carried out (or its timeout elapsed, or the event was dropped by a clear request or by releasing the machine), whatever the schedule, and with no timeout given never returns earlier. "
     "It returns true exactly if the event, and the last of these steps, led to an executed transition. "
     "It never waits for good.",
     ["schedules", "histories", "inputs"],
     "for every schedule of client threads and the dispatcher, every machine and every timeout",
     "Tests run on one uncontrolled schedule; the window between posting, processing and waiting is a few instructions wide.",
     [IT, I], [("PendingEventInfo wait/unlock", IT), ("transitionEx", I)],
     [("transition status", "PENDING until the event was processed")])
prop("C13", "Events posted concurrently are each processed exactly once, in per-thread order",
     "Events posted from any number of threads, from timers and from interrupts are each processed exactly once, on the dispatcher, and those of one thread in the order it posted them. "
     "Callbacks of one machine never overlap in time. "
     "Once all posters are quiet and the dispatcher is idle no posted event is left unprocessed.",
     ["schedules"],
     "for every number of posting threads and every interleaving with the dispatcher's loop, including starting up",
     "The one multi-threaded test counts events on an uncontrolled schedule.",
     [I, B, "src/HsmEventDispatcherSTD.cpp"], [("mEventsSync", I), ("emitEvent/dispatchPendingEvents/doDispatching", "src/HsmEventDispatcherSTD.cpp")])
prop("C14", "Clearing the queue drops exactly the pending events",
     "A transition request that asks for clearing the queue drops all events posted before it and not yet being processed, releases their synchronous waiters with a negative result, and keeps itself and everything posted later. "
     "The event being processed, including its entry-point and history steps, is completed. "
     "Dropped events cause no callback.",
     ["schedules", "histories"],
     "for every queue content, point of the request relative to a multi-step transition, and schedule",
     "Two tests: a plain queue of async events.",
     [I, IT], [("clearPendingEvents", I), ("releaseLock", IT)])
prop("C15", "Release and destruction are safe at any time",
     "After release returns, no callback of that machine is called, its handlers are gone from the dispatcher and its timers do not fire; release can be called at any time, also from inside a callback (whose current step is then still completed) and repeatedly, and always returns. "
     "Requests on a machine that is not initialized or was released fail or do nothing. "
     "Synchronous requests pending at release return false.",
     ["schedules", "histories"],
     "for every point of a release or destruction in the machine's life, other machines on the same dispatcher, and every schedule",
     "Tests release machines when idle or in one fixed callback position.",
     [I, "src/hsm.cpp", B], [("release/mIsDispatching/mStopDispatching", I), ("handlers holding weak references", I), ("unregister*Handler", B)])
prop("C16", "Interrupt-safe transitions are bounded, ordered and never lost once accepted",
     "An interrupt-safe request returns true exactly if the dispatcher's fixed-size queue has room for the event, never allocating beyond that size, and then the event is delivered exactly once to its own machine. "
     "Accepted events are delivered in the order accepted. "
     "A refused request has no effect, and delivering frees the room.",
     ["schedules", "histories", "configurations"],
     "for every queue size, sequence of requests between dispatcher turns, number of machines and schedule",
     "Tests enqueue a few events and check that they arrive.",
     [B, "src/HsmEventDispatcherSTD.cpp"], [("enqueueEvent/dispatchEnqueuedEvents", B)],
     [("enqueued events", "pre-allocated list of (handler, event)")])
prop("C17", "Dispatchers call every registered handler once per event and no other",
     "Each emitted event makes the dispatcher call the addressed handler once, in emission order, on the dispatcher's own context; handler ids are unique and never the invalid id. "
     "A handler that was unregistered before is not called, and one that reports itself invalid is not called for later events of that batch. "
     "Registering, unregistering, emitting and stopping from inside handlers or other threads neither loses wake-ups, nor deadlocks, nor disturbs other handlers.",
     ["schedules", "histories"],
     "for every sequence of register/unregister/emit/stop operations, from any thread or handler, and every schedule, on every dispatcher",
     "The dispatchers have no tests of their own, only end-to-end machine scenarios.",
     [B, "src/HsmEventDispatcherSTD.cpp", "src/HsmEventDispatcherGLib.cpp", "src/HsmEventDispatcherGLibmm.cpp", "src/HsmEventDispatcherQt.cpp"],
     [("dispatchPendingEvents", B), ("emitEvent", B), ("register/unregister handlers", B)])
prop("C18", "Timers fire exactly when due, as often as due, and only while running",
     "A started timer fires its handler not earlier than its interval after the last (re)start, once if single-shot and otherwise again after each interval, and the machine's registered event is posted for each expiry. "
     "A stopped or replaced timer does not fire any more for its old setting, restarting a running timer begins its interval anew with unchanged settings, starting it again replaces its settings, and timers are independent of each other. "
     "A timer is reported as running from start until it is stopped or, if single-shot, expired.",
     ["histories", "inputs", "schedules"],
     "for every sequence of start, restart, stop and queries of several timers at any time relative to expiries, on every dispatcher",
     "Tests use one timer with generous sleeps of real time; no test changes a timer near its expiry or runs two.",
     [B, "src/HsmEventDispatcherSTD.cpp", "src/HsmEventDispatcherQt.cpp", "src/HsmEventDispatcherGLib.cpp", "src/HsmEventDispatcherGLibmm.cpp"],
     [("startTimer/restartTimer/stopTimer/handleTimerEvent", B), ("handleTimers: virtual timers thread", "src/HsmEventDispatcherSTD.cpp")],
     [("active timers", "timer id to handler, interval and mode")])
prop("C19", "Timer and event operations from any thread never deadlock or lose a timer",
     "Starting, stopping, restarting and querying timers, posting events, registering and unregistering handlers and stopping the dispatcher may be done from any thread, from timer callbacks and from event callbacks at the same time, and each call returns. "
     "A timer that runs keeps firing whatever else happens at the same time. "
     "After the dispatcher stopped and was joined no timer callback is called.",
     ["schedules"],
     "for every interleaving of client threads, the timers thread and the dispatcher thread",
     "Timer tests are single-threaded apart from the dispatcher; the windows for lost wake-ups and lock inversions are a few instructions wide.",
     ["src/HsmEventDispatcherSTD.cpp", B], [("mRunningTimersSync/mHandlersSync/mEmitSync", "src/HsmEventDispatcherSTD.cpp"), ("unregisterTimerHandler", B)])
prop("C20", "Code generated from SCXML behaves as the SCXML describes",
     "For every SCXML file within the documented subset, the generated class compiles and registers exactly the described states, hierarchy, initial and parallel states, transitions with events, conditions and actions, history and final states, state actions and timers. "
     "Running it with any event sequence calls the named callbacks as the described statechart demands. "
     "The generated enumerations contain every state, event and timer mentioned anywhere in the file.",
     ["programs", "inputs", "histories"],
     "for every statechart in the supported subset and every event sequence",
     "Ten fixed SCXML files are generated and their registrations compared for single features.",
     ["tools/scxml2gen/scxml2gen.py", "tools/scxml2gen/template.cpp", "tools/scxml2gen/template.hpp", "doc"],
     [("parseStateMachine/generateCppCode", "tools/scxml2gen/scxml2gen.py")],
     observe="callbacks and configuration of the compiled generated class")
prop("C21", "Variant is a value type with a lawful equality and order",
     "A variant reports the type and exact value it was built or assigned from, copies are independent of the original, and moving leaves the source valid. "
     "Equality agrees with mathematical equality on numbers of any signedness and width (fractional ones are compared with the tolerance 1e-8) and with element-wise equality on text, byte, list, map and pair values; the order is irreflexive, asymmetric, transitive, consistent with equality and total over values of all types, so that variants can be used as map keys (NaN and custom types aside). "
     "Conversions to text, number and boolean yield the documented values and never touch memory they do not own.",
     ["inputs", "histories"],
     "for all values of all supported types incl. extreme numbers, nested containers and mixed types, and all sequences of copy, move, assign and compare",
     "The Variant tests are tables of a few values per type.",
     ["include/hsmcpp/variant.hpp", "src/variant.cpp"], [("operator==/operator</compareNumeric", "src/variant.cpp"), ("copy/assign/createCopy", "include/hsmcpp/variant.hpp")],
     observe="return values of the Variant API")
prop("C22", "The debug log is a faithful record of what the machine did",
     "With logging enabled, the log lists, in order of occurrence, every executed transition (regular, entry-point and internal), every entry, exit and state callback with its acceptance, every set of executed entry and exit actions and every idle point, each with the right states, event, arguments and active states. "
     "It contains nothing that did not happen. "
     "The file is well-formed at every moment.",
     ["programs", "histories", "inputs"],
     "for every machine, event sequence and refusal pattern",
     "One test compares a log of a fixed scenario.",
     [I, "tools/hsmdebugger"], [("logHsmAction", I), ("enableHsmDebugging", I)], observe="the .hsmlog file")
prop("C23", "Machines sharing a dispatcher do not influence each other",
     "Several machines on one dispatcher each behave exactly as if they were alone: events, interrupt-safe requests and timers reach only the machine they were meant for, also when they use equal state, event numbers. "
     "Releasing or destroying one machine leaves the others' events, timers and handlers untouched. "
     "One machine can post to another from a callback.",
     ["histories", "schedules", "configurations"],
     "for every number of machines, order of creation and release, and interleaving of their events",
     "One test with two machines.",
     [B, I], [("handler ids, per-handler routing of events and timers", B)])
prop("C24", "A machine behaves the same on every dispatcher",
     "For the same machine and the same sequence of requests, the std-thread, GLib, GLibmm and Qt dispatchers lead to the same callbacks in the same order, the same results and the same final configuration. "
     "Only timing differs. "
     "Starting and stopping each of them repeatedly, before or after machines are created, is harmless.",
     ["configurations", "histories", "inputs"],
     "for every machine and event sequence on each of the desktop dispatchers",
     "The suite is built for each dispatcher, but each scenario waits for its single outcome; sequences are not compared.",
     ["src/HsmEventDispatcherSTD.cpp", "src/HsmEventDispatcherGLib.cpp", "src/HsmEventDispatcherGLibmm.cpp", "src/HsmEventDispatcherQt.cpp", B],
     [("start/stop/emitEvent/notifyDispatcherAboutEvent", "src/HsmEventDispatcher*.cpp")])
prop("C25", "Dispatcher actions run exactly once, promptly, on the dispatcher",
     "Every action handed to a running dispatcher is executed exactly once, on the dispatcher's context, in the order handed over. "
     "This needs no other activity to happen. "
     "Actions handed over from inside an action or handler are executed too.",
     ["schedules", "histories"],
     "for every sequence and schedule of action requests, from any thread or from actions",
     "Actions are only used indirectly, for timer start on Qt and GLibmm.",
     [B, "src/HsmEventDispatcherSTD.cpp"], [("enqueueAction/dispatchPendingActions", B)])
prop("C26", "Structure registration accepts exactly well-formed hierarchies",
     "Registering a substate succeeds exactly if it keeps the hierarchy a forest: parent and substate differ, the substate has no parent yet (or, for a further entry point, this parent) and is no ancestor of the parent. "
     "A refused registration leaves the structure unchanged, and several conditional entry points may be given for the same substate. "
     "Machines built in different registration orders of independent elements behave the same.",
     ["programs", "inputs"],
     "for every sequence of state, substate and entry-point registrations",
     "Six registration tests of single pairs.",
     [I, H], [("registerSubstate with structure validation", I)], observe="return values of the registration API and behaviour of the resulting machine")
prop("C27", "The PlantUML export describes the same statechart as the SCXML",
     "For every SCXML file within the documented subset, the exported diagram contains exactly the states with their nesting, the initial, final and history markers, and the transitions with event, condition and target that the file describes. "
     "Nothing is dropped or attached to another state. "
     "Export does not depend on element order.",
     ["programs"],
     "for every statechart in the supported subset",
     "The export has no tests.",
     ["tools/scxml2gen/scxml2gen.py"], [("generatePlantuml", "tools/scxml2gen/scxml2gen.py")], observe="the exported .plantuml text")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert p["statement"].count(". ") <= 3, p["id"]
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
