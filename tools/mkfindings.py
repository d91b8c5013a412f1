#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (they suppress nothing) and unrepaired ones.
Commits are looked up by their subject so that the list stays readable."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C12", "change status of a sync transition", "status of a synchronous transition changed outside the lock: its waiter could miss the wake-up and wait for good"),
 ("C14", "clearing the events queue must not drop", "a clear request dropped the pending entry-point/history step of the transition in progress, leaving a parent without its substate"),
 ("C11", "isTransitionPossible() reused", "wrong prediction with several queued events; conditions were called with the queue locked (deadlock)"),
 ("C13", "lock events queue when adding default history", "default history steps were queued without the lock"),
 ("C05", "restore parents before", "after a refused exit the substates were restored before their parents"),
 ("C05", "don't try to exit states again", "exit handlers were called again for every further target after the first refusal"),
 ("C07", "history transitions were executed for every", "a history step ran once per active state and deactivated unrelated parallel states"),
 ("C06", "entering several parents with one event", "redundant entry steps were reported as failed transitions"),
 ("C07", "restore parallel substates of a deep history", "deep history with parallel leaves lost ancestors or entered entry points as well"),
 ("C26", "allow registering several entry points", "conditional entry points for the same substate were refused"),
 ("C12", "finish sync transitions only after", "a synchronous transition returned before its entry-point and history steps"),
 ("C15", "release HSM only after", "synchronous transitions pending at release waited for good or used freed memory"),
 ("C15", "releasing HSM from its own callback", "release() inside a callback never returned"),
 ("C01", "state entered by one of several transitions", "a state entered by one transition of an event was removed from the active list by another one"),
 ("C10", "transition into an already active state", "transition into an already active parent reported a failed entry transition"),
 ("C15", "failed transition was reported after HSM", "failed-transition callback called after release"),
 ("C08", "event of a final state interrupted", "a final state's event was processed before the remaining entry/history steps"),
 ("C10", "entry point steps of states which were left", "spurious failure report for the entry step of a state left by the same event"),
 ("C16", "check free space for an enqueued event", "free space of the interrupt-safe queue was checked without the lock, so that it could grow (allocate)"),
 ("C16", "enqueued events were dispatched in reverse", "interrupt-safe events were delivered in reverse order"),
 ("C17", "enqueued event of an unregistered handler", "an enqueued event of a handler unregistered meanwhile crashed the dispatcher"),
 ("C17", "event handler was called after another", "handlers unregistered by an earlier handler of the same batch were still called"),
 ("C17", "handlers registered at the same time", "concurrent registrations could get the same handler id"),
 ("C13", "events added by other threads while HSM is", "an event posted by another thread while initialize() ran was processed before the initial state was entered and got lost"),
 ("C25", "enqueued action was not executed until", "an enqueued action woke nobody up and waited for some other event"),
 ("C16", "notification about an enqueued event could be lost", "the wake-up for an interrupt-safe event could be lost, leaving it unprocessed"),
 ("C19", "starting, stopping or restarting a timer while", "timer operations racing with an expiry deadlocked, lost the timer or fired it early"),
 ("C19", "isTimerRunning() accessed", "isTimerRunning() read the timers without the lock"),
 ("C19", "restarting a GLib, GLibmm or Qt timer", "a GLib/GLibmm/Qt timer restarted while expiring was lost; a Qt timer stopped early kept running"),
 ("C24", "GLib, GLibmm and Qt dispatchers didn't deliver", "stopped and restarted GLib/GLibmm/Qt dispatchers delivered no events"),
 ("C24", "GLib dispatcher blocked forever", "more than 64 Ki events emitted inside one callback blocked the GLib dispatcher for good"),
 ("C13", "events added from callbacks doubled", "every event posted from a callback doubled the emitted events: a machine that keeps itself busy exhausted memory and starved everything else"),
 ("C13", "events added by callbacks of the initial state", "events posted by callbacks of the initial state were processed by the dispatcher thread while initialize() was still entering that state"),
 ("C19", "stopping std dispatcher could be delayed until the next", "stop() of the std dispatcher didn't reach its timers thread, join() waited until the next timer expired"),
 ("C22", "names of states and events were missing in debug log", "records of the debug log had no names of states and events in builds without verbose traces"),
 ("C22", "arguments with special characters made debug log", "text arguments with special characters made the debug log unloadable"),
 ("C24", "emitting events while GLib dispatcher is being stopped", "an event emitted while another thread stopped the GLib dispatcher raised SIGPIPE or used a closed descriptor"),
 ("C24", "GLibmm dispatcher crashed when it was stopped", "GLibmm dispatcher crashed if it was stopped by a handler or another thread, or used before start or after stop"),
 ("C18", "Qt timers could expire before", "coarse Qt timers fired before their interval had passed"),
 ("C24", "Qt dispatcher didn't work if it was created and started", "a Qt dispatcher created by one thread and started by another one never delivered anything"),
 ("C24", "starting and stopping GLib dispatcher from several", "starting and stopping the GLib dispatcher from several threads left a source on a closed descriptor, the main loop span for ever"),
 ("C20", "scxml2gen failed to process xi:include", "scxml2gen raised an exception for xi:include elements directly below the root"),
 ("C20", "scxml2gen generated invalid code for default targets", "generated classes with default targets of history states didn't compile"),
 ("C20", "scxml2gen ignored default transitions of history", "default transitions of history states without event were dropped (a history state entered the first time had no target)"),
 ("C20", "scxml2gen didn't generate events which are used only", "events used only by final states or transition actions were missing in the generated enumeration, the class didn't compile"),
 ("C20", "scxml2gen treated history states of parallel", "history states of parallel states were generated as substates"),
 ("C20", "scxml2gen treated final states which are entry", "final states which are entry points were generated as regular states"),
 ("C20", "scxml2gen ignored substates of states which have only", "states with only final or history children lost them"),
 ("C20", "scxml2gen ignored unconditional entry", "unconditional entry transitions next to conditional ones were dropped"),
 ("C20", "scxml2gen changed text arguments", "text arguments of actions which contain commas were changed"),
 ("C27", "scxml2gen could attach states to a wrong parent", "states were drawn inside a wrong parent in PlantUML diagrams"),
 ("C27", "scxml2gen could draw final states in a wrong", "final states were drawn in a wrong place or instead of other states in PlantUML diagrams"),
 ("C21", "variant reads released memory", "assigning to a variant a part of its own value read released memory"),
 ("C21", "comparing variants with different custom", "comparing variants of different custom types read one of them as the other"),
 ("C21", "variants compare numbers", "numbers of different signedness or width, big numbers against doubles and infinity compared wrongly"),
 ("C21", "variants of different types are less", "values of different types were each less than the other: maps with such keys broke"),
 ("C21", "fractional and big numbers", "0.5 and \"0.5\" converted to false; big doubles converted to bool through an undefined conversion"),
]
FINDINGS = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
out = []
for prop, key, what in FIXED:
    h = [l.split()[0] for l in log if "fix: " + key in l]
    assert len(h) == 1, (key, h)
    out.append("fixed: property=%s %s %s" % (prop, h[0], what))
json.dump(dict(findings=FINDINGS, fixed=out), open(V + "/known_findings.json", "w"), indent=1)
print(len(out), "fixed")
