#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/boost/signals2/"; D = I + "detail/"
SCHED = "every interleaving of up to several caller threads with re-entrant calls from slots, combiners and destructors, "
def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)
props = [
P("C01", "Every eligible slot runs exactly once per invocation",
  "When a signal is invoked with a combiner that visits the whole range, every slot that was connected before the invocation began and is not disconnected, blocked or expired before the invocation reaches it is called exactly once by that invocation, with the arguments that were passed. No slot is called twice by one invocation (unless the combiner dereferences its position again after that call threw), and no slot of another signal is called. This holds whatever other threads, or the slots themselves, do to the signal meanwhile.",
  ["schedules", "histories", "configurations"], SCHED + "for every mix of connect, disconnect, block, group and tracking operations around the invocation.",
  "The tests invoke from one thread with a handful of slots in a fixed order of operations; they cannot reach lost or repeated calls caused by list copying, clean-up or expiry racing with an invocation.",
  [D + "signal_template.hpp", D + "variadic_slot_invoker.hpp", D + "slot_call_iterator.hpp", D + "slot_groups.hpp", D + "preprocessed_arg_type_template.hpp"],
  [("invocation over a copied list", D + "signal_template.hpp operator()"), ("skipping uncallable slots", D + "slot_call_iterator.hpp lock_next_callable"), ("copy on write of the connection list", D + "signal_template.hpp nolock_force_unique_connection_list")], ["slot bodies", "signal::operator()"]),
P("C02", "A disconnected slot is never called again",
  "Once a call that disconnects a slot has returned (through any handle to the connection, a scoped connection, the connection passed to the slot itself, or a signal-level disconnection), no invocation that reaches the slot afterwards calls it, in any thread, including invocations already in progress. The connection then stays disconnected for ever, and disconnecting again has no effect. Only an execution that an invocation had already committed to may still run or finish.",
  ["schedules", "histories"], SCHED + "for every way of disconnecting and every position of an invocation in progress.",
  "connection_test and deletion_test disconnect at a few fixed points of a single-threaded invocation; the window between a slot being selected and called, and between list copies, needs every interleaving.",
  [I + "connection.hpp", D + "slot_call_iterator.hpp", D + "signal_template.hpp"],
  [("connected flag changed under the connection's lock", I + "connection.hpp nolock_disconnect"), ("state re-checked before each slot", D + "slot_call_iterator.hpp lock_next_callable")], ["slot bodies", "connection::connected"]),
P("C03", "Signal-level disconnect removes exactly the selected slots",
  "Disconnecting by group, by function object, or all slots of a signal disconnects every matching slot that was connected before the call began and disconnects no slot that does not match. A signal connected as a slot of another signal is matched by disconnecting with that signal, and a disconnection by function object leaves slots in all groups with unequal function objects alone. Groups and slots connected afterwards are unaffected.",
  ["histories", "schedules", "inputs"], "every set of groups, function objects and chained signals, with concurrent and re-entrant connects, disconnects and invocations.",
  "The tests disconnect one group or one function in a static signal; they do not vary the group layout or race the removal with other list changes.",
  [D + "signal_template.hpp", D + "slot_groups.hpp", I + "slot_base.hpp"],
  [("group range", D + "signal_template.hpp do_disconnect(group)"), ("function comparison", D + "signal_template.hpp do_disconnect(slot)"), ("all slots", D + "signal_template.hpp disconnect_all_slots")], ["connection::connected", "slot bodies"]),
P("C04", "A blocked slot is not called while any block is active",
  "While at least one connection block on a connection is blocking, no invocation that reaches the slot calls it, in any thread, and the connection reports itself blocked without being disconnected. Blocks are counted: unblocking, copying, assigning or destroying one block never releases another, and once the last block is released the slot is called again. Blocking and unblocking repeatedly through one block counts once.",
  ["schedules", "histories"], SCHED + "for every set of blocks, copies and assignments of blocks over several connections.",
  "shared_connection_block_test exercises a few blocks sequentially; it cannot show that counting survives concurrent block/unblock or that the block takes effect for invocations already running.",
  [I + "shared_connection_block.hpp", I + "connection.hpp", D + "slot_call_iterator.hpp"],
  [("shared blocker token", I + "connection.hpp get_blocker"), ("blocked test", I + "connection.hpp blocked / nolock_nograb_blocked"), ("skip in iteration", D + "slot_call_iterator.hpp lock_next_callable")], ["slot bodies", "connection::blocked"]),
P("C05", "Slots run in group and connection order",
  "Every invocation calls slots in the documented order: ungrouped front slots, then groups in the order of the signal's group comparison object, then ungrouped back slots; within each of these, front connections run newest first and back connections oldest first. The order is the same in every invocation for slots that stay connected, whatever was connected, disconnected or cleaned up before or meanwhile.",
  ["histories", "inputs", "schedules", "configurations"], "every sequence of grouped and ungrouped connections and disconnections, comparison objects with state, and concurrent clean-up.",
  "ordering_test checks some fixed insertion sequences; group bookkeeping after emptied groups, clean-up and failed insertions depends on the history.",
  [D + "slot_groups.hpp", D + "signal_template.hpp"],
  [("group map and list", D + "slot_groups.hpp grouped_list"), ("key order", D + "slot_groups.hpp group_key_less")], ["order of slot executions"]),
P("C06", "An invocation works on the slots and combiner of its start",
  "A slot connected after an invocation began is not called by that invocation, whether it was connected by another thread or by a slot of the same invocation. An invocation uses the combiner that was set when it began, undisturbed by a later change or by other invocations, and the change applies to every invocation begun after it returned. Every invocation, recursive and concurrent ones included, sees its own consistent snapshot.",
  ["schedules", "histories"], SCHED + "with connections and combiner changes at every point of an invocation.",
  "The tests never change a signal from another thread during an invocation and change combiners only between invocations.",
  [D + "signal_template.hpp"],
  [("shared invocation state", D + "signal_template.hpp invocation_state, get_readable_state"), ("copy on write", D + "signal_template.hpp nolock_force_unique_connection_list, set_combiner")], ["slot bodies", "combiner calls"]),
P("C07", "Tracked objects are alive whenever their slot runs",
  "A slot is not started once any object it tracks has been destroyed, and every object it tracks stays alive until that execution of the slot has ended. When a tracked object is gone the connection counts as disconnected, and a slot object called directly throws instead of running. Tracking never extends an object's life beyond executions of slots: neither connections, signals nor queries own it.",
  ["schedules", "histories", "configurations"], SCHED + "for owners of tracked objects released at every point, with boost and std shared pointers, tracked signals and tracking through another slot.",
  "track_test releases owners between invocations only; release during selection, during a call or during a query needs schedules.",
  [I + "slot_base.hpp", I + "slot.hpp", D + "foreign_ptr.hpp", I + "connection.hpp", D + "slot_call_iterator.hpp", D + "slot_template.hpp"],
  [("locking tracked objects", I + "slot_base.hpp lock; connection.hpp nolock_grab_tracked_objects"), ("expiry", I + "slot_base.hpp expired")], ["slot bodies", "tracked object destructors"]),
P("C08", "Slot function objects live exactly as long as needed",
  "A slot's function object is never destroyed while it is executing or while its connection is connected. Once the connection is disconnected and no invocation is using the slot any more, its function object is destroyed, without waiting for the connection handles or the signal to go away. When all signals, handles and blocks are gone, nothing of the slots, connections or combiners remains allocated.",
  ["schedules", "histories"], SCHED + "for disconnection at every point, including from inside the slot and with handles outliving the signal.",
  "The tests do not watch function-object lifetimes; releasing late or early depends on which thread finishes last.",
  [I + "connection.hpp", D + "slot_call_iterator.hpp", D + "signal_template.hpp"],
  [("slot reference count and release", I + "connection.hpp dec_slot_refcount, release_slot"), ("clean-up of list entries", D + "signal_template.hpp nolock_cleanup_connections")], ["function object copies and destructors", "heap"]),
P("C09", "No library lock is held while user code runs; no deadlock",
  "Slots, combiners, and destructors of slot function objects and of tracked objects always run without any of the library's locks held by the calling thread. Such user code may therefore use any operation of any signal, connection or block. No interleaving of the library's operations deadlocks or fails to finish.",
  ["schedules", "histories"], SCHED + "including user code that calls back into the same signal and connections.",
  "deadlock_regression_test covers one historical deadlock; a lock held across one destructor on one path is invisible unless user code happens to re-enter there.",
  [I + "connection.hpp", D + "signal_template.hpp", D + "slot_call_iterator.hpp", D + "auto_buffer.hpp"],
  [("garbage collecting lock", I + "connection.hpp garbage_collecting_lock"), ("per-connection and per-signal mutex", D + "signal_template.hpp _mutex")], ["user callbacks", "mutex operations"]),
P("C10", "Concurrent use has no data race and no memory error",
  "Signals, connections, connection blocks and slots used concurrently in the ways the documentation declares thread-safe are free of data races, for every interleaving. No operation reads or writes freed, unallocated or out-of-bounds memory, frees memory twice, or destroys a locked mutex. This holds for the default mutex and for any user-supplied mutex type.",
  ["schedules", "histories", "configurations"], SCHED + "for every mix of operations on shared signals, connections and blocks.",
  "threading_models_test only instantiates mutex types; races need the interleaving in which the unprotected access actually overlaps.",
  [I + "connection.hpp", D + "signal_template.hpp", I + "shared_connection_block.hpp", D + "slot_call_iterator.hpp", D + "lwm_pthreads.hpp"],
  [("signal mutex and connection mutex", D + "signal_template.hpp, connection.hpp"), ("copy on write state", D + "signal_template.hpp invocation_state")], ["every memory access"]),
P("C11", "Slot exceptions propagate and leave the signal intact",
  "An exception thrown by a slot reaches the invocation's caller unchanged unless the combiner handles it, and when it does propagate no further slot is called by that invocation. A slot that throws the expired-slot exception is disconnected, and the default combiners go on with the remaining slots. Afterwards the signal, its connections, blocks and tracked objects behave as if the slot had returned normally: nothing stays locked, held or leaked.",
  ["histories", "schedules", "inputs"], "every position and kind of throwing slot, nested and concurrent invocations, and every combiner behaviour.",
  "The tests throw from few slots and do not examine the state left behind by unwinding at each position.",
  [D + "slot_call_iterator.hpp", D + "signal_template.hpp", I + "optional_last_value.hpp", I + "last_value.hpp"],
  [("expired slot handling", D + "slot_call_iterator.hpp dereference; last_value.hpp; optional_last_value.hpp"), ("invocation janitor", D + "signal_template.hpp invocation_janitor")], ["exceptions seen by callers", "slot bodies"]),
P("C12", "Failed operations leave no trace",
  "If an allocation, the copy of a slot function object, a group comparison or a combiner copy or assignment fails inside an operation, the operation throws that failure and leaves the signal's slots, order, combiner and connections as they were before. No failure leaks memory, leaves a lock held, loses or duplicates a slot, or makes later operations misbehave. Disconnecting, unblocking and destroying never throw.",
  ["fault_sequences", "schedules", "histories"], "every position of a failing allocation, copy, comparison or assignment inside every operation, alone and under concurrency.",
  "No existing test injects failures.",
  [D + "signal_template.hpp", D + "slot_groups.hpp", I + "connection.hpp", D + "auto_buffer.hpp", I + "shared_connection_block.hpp"],
  [("insertion into list and map", D + "slot_groups.hpp insert"), ("copy before modify", D + "signal_template.hpp create_new_connection, set_combiner"), ("clean-up that swallows failures", D + "signal_template.hpp invocation_janitor")], ["operation results", "heap", "later invocations"]),
P("C13", "Queries report a state that really existed",
  "connected(), blocked(), empty() and num_slots() return a value that was correct at some moment between their call and their return, for every interleaving, and in quiescence they are exact. A connection whose signal was destroyed and has no invocation in progress, or a slot of which tracks a destroyed object, is reported not connected; a connection that is not connected is reported blocked. Queries change nothing that other operations can observe.",
  ["schedules", "histories"], SCHED + "with queries placed at every point.",
  "The tests query in quiescence only, and rarely after expiry or partial clean-up.",
  [I + "connection.hpp", D + "signal_template.hpp"],
  [("locked reads", I + "connection.hpp connected, blocked"), ("counting", D + "signal_template.hpp num_slots, empty")], ["query results"]),
P("C14", "Combiners get every result, lazily, and decide the outcome",
  "A combiner sees the callable slots as an input range: dereferencing calls the slot and yields its result, repeated dereferencing of a position whose call returned does not call it again, and advancing without dereferencing does not call it. The invocation returns exactly what the combiner returns, and slots receive exactly the arguments of the invocation; an extended slot also receives a handle to its own connection. The default combiner returns the last result, or nothing if no slot ran, last_value throws when there is no slot, and the installed combiner can be read back and replaced.",
  ["inputs", "histories", "schedules"], "every way a combiner can walk the range, with slots and combiners changing meanwhile.",
  "The tests use a few simple combiners on static slot lists.",
  [D + "slot_call_iterator.hpp", D + "result_type_wrapper.hpp", D + "variadic_slot_invoker.hpp", I + "last_value.hpp", I + "optional_last_value.hpp", D + "signal_template.hpp"],
  [("cached dereference", D + "slot_call_iterator.hpp dereference"), ("combiner invoker", D + "result_type_wrapper.hpp"), ("extended slots", D + "signal_template.hpp bound_extended_slot_function")], ["combiner", "slot arguments", "return values"]),
P("C15", "Connection handles are safe, consistent value types",
  "All copies of a connection denote the same connection: they compare equal, order consistently, and a disconnection through one is visible through all; copying, moving, assigning, swapping or destroying plain connections never disconnects anything. A scoped connection disconnects its connection when it is destroyed or assigned over, and does not after it was released, swapped away or moved from. Every handle outlives its signal safely and then behaves as disconnected, as does an empty handle.",
  ["histories", "schedules"], "every sequence of handle operations across threads and relative to disconnection and destruction of the signal.",
  "The tests check each handle operation once; combinations such as assigning over, self-assignment, or handles outliving moved signals are histories.",
  [I + "connection.hpp"],
  [("weak reference to the connection", I + "connection.hpp class connection"), ("scoped connection", I + "connection.hpp class scoped_connection")], ["connection and scoped_connection operations"]),
P("C16", "Destroying, moving and swapping signals is safe",
  "A signal may be destroyed, assigned over, moved or swapped at any time it is not being used by another call on the same object, including from inside a slot that it is calling: invocations in progress then complete normally, calling every remaining connected slot, and once they have completed all its slots are disconnected and released, and another signal that it was connected to does not call it again. Moving or swapping signals transfers all slots, order, combiner and connections, which keep working through the new owner. A moved-from signal can be assigned to or destroyed.",
  ["histories", "schedules"], "every placement of signal destruction, move and swap relative to invocations of other signals, connections and handles.",
  "The tests move or swap one quiescent signal; chained signals destroyed during use need schedules.",
  [D + "signal_template.hpp", I + "signal_base.hpp", I + "slot.hpp"],
  [("shared implementation", D + "signal_template.hpp _pimpl, weak_signal"), ("disconnection at destruction", D + "signal_template.hpp ~signal")], ["connections", "slot bodies"]),
P("C17", "Memory kept for dead connections stays bounded",
  "However many connections a signal has had, the memory kept for connections that are disconnected or expired stays bounded by a small constant plus a multiple of the number of live connections, as long as the signal is connected to or invoked now and then. The bound holds whether connections die by disconnection or by expiry of tracked objects, in any group, and whether or not invocations overlap. Ordinary operations never scan or free without end.",
  ["histories", "schedules"], "every pattern of connect, disconnect and expiry, for hundreds of connections, with invocations interleaved or overlapping.",
  "The tests create few connections and do not measure memory.",
  [D + "signal_template.hpp"],
  [("incremental clean-up", D + "signal_template.hpp nolock_cleanup_connections, force_cleanup_connections, invocation_janitor")], ["heap"]),
P("C18", "deconstruct: construct, postconstruct, predestruct, destroy once",
  "An object made by the deconstruct factory is constructed once with the given arguments, postconstructed exactly once (successfully) with the given arguments before its pointer is handed out, and predestructed once and then destroyed once, exactly when its last owner is released, whichever thread that is. If construction fails nothing else runs; if postconstruction throws, the exception reaches the caller and the object is still predestructed and destroyed once; a discarded factory result is cleaned up the same way. The same life cycle holds for deconstruct_ptr and the postconstructible and predestructible bases, and no memory leaks on any path.",
  ["schedules", "fault_sequences", "histories"], "every placement of owner releases over threads, constructor, postconstructor and allocation failures, and uses of the intermediate factory result.",
  "deconstruct_test covers the success path in one thread and no failure.",
  [I + "deconstruct.hpp", I + "deconstruct_ptr.hpp", I + "postconstructible.hpp", I + "predestructible.hpp"],
  [("deleter with in-place storage", I + "deconstruct.hpp deconstruct_deleter"), ("invoker", I + "deconstruct.hpp postconstructor_invoker"), ("deconstruct_ptr", I + "deconstruct_ptr.hpp")], ["constructor, postconstructor, predestructor and destructor calls", "heap"]),
P("C19", "mutex excludes and publishes; dummy_mutex never blocks",
  "At most one thread owns a mutex at a time, and what an owner wrote before unlocking is visible to the next owner. try_lock never waits, returns true exactly when it took ownership, and returns false only if another thread owned the mutex at some moment of the call; lock returns once the mutex becomes available. dummy_mutex never blocks and its try_lock always succeeds.",
  ["schedules"], "every interleaving of lock, try_lock and unlock by up to five threads over several mutexes, through raw calls and standard guards.",
  "mutex_test runs real threads with uncontrolled timing.",
  [I + "mutex.hpp", D + "lwm_pthreads.hpp", I + "dummy_mutex.hpp"],
  [("pthread mutex", D + "lwm_pthreads.hpp"), ("no-op mutex", I + "dummy_mutex.hpp")], ["lock, try_lock, unlock"]),
P("C20", "Slots bound to trackable objects die with them",
  "A slot that binds a pointer or reference to an object derived from trackable, or to a signal, at any depth the visitor reaches, is never called after that object is destroyed, and its connection then counts as disconnected, even when the destruction happens inside an invocation, inside the slot itself, or between making the slot and connecting it. Destroying or copying one trackable object does not affect slots bound to others. Until then the slot is called normally.",
  ["histories", "fault_sequences"], "every history of creating, copying, destroying, connecting, invoking and re-entering in one thread, with allocation failures.",
  "trackable_test destroys an object between invocations only.",
  [I + "trackable.hpp", D + "tracked_objects_visitor.hpp", I + "slot.hpp", I + "slot_base.hpp"],
  [("visitor", D + "tracked_objects_visitor.hpp"), ("token per object", I + "trackable.hpp _tracked_ptr")], ["slot bodies", "connection::connected"]),
P("C21", "Named template parameters select the same signal type",
  "signal_type with named or positional parameters denotes exactly the signal type those parameters describe, with documented defaults for the rest.",
  ["configurations"], "every combination of named parameters.",
  "signal_type_test compiles a few combinations.",
  [I + "signal_type.hpp"], [("parameter binding", I + "signal_type.hpp")]),
]
NA = {"C21": "A pure compile-time mapping from template arguments to a type: no schedule, clock, fault, I/O or history for a simulator to decide."}
PP = "Both the C++11 variadic and the preprocessor-generated (BOOST_NO_CXX11_VARIADIC_TEMPLATES) implementations are searched. "
note = {
 "signal": "Seeded search over thread schedules, re-entrancy, histories and injected failures on the real headers under a simulated scheduler, mutex and heap; each run is checked against an interval model of every connection and by a happens-before race and memory checker. " + PP + "Sampling, not enumeration; sequentially consistent interleavings; library-external user code obeys its documented requirements.",
 "C18": "Seeded search over creations, releases and failures on several simulated threads against a life-cycle model, with the race and memory checker. " + PP + "Sampling; predestructors do not throw.",
 "C19": "Seeded search over interleavings of lock programs against an ownership-interval model; the POSIX mutex underneath is the simulator's, so this decides the wrapper, not the OS.",
 "C20": "Seeded search over sequential re-entrant histories with allocation failures against an exact model (trackable is documented as not thread-safe, so no threads are simulated). Whether assignment keeps the target's own connections is left open, as documentation and code differ.",
}
man = dict(version=1, setup_cmd="python3 check.py --build", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="One simulator for all checks: see DESIGN.md. No hooks in /repo: the seams are link-time (instrumented memory accesses, pthread and allocation symbols are redirected to the simulator in the checks' own objects). Replay a violation with: python3 check.py --replay FILE. Determinism proof: python3 check.py --determinism.")
for p in props:
    if p["id"] in NA: continue
    man["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
        technique="deterministic simulation: seeded schedule and fault search with model oracle", level="exploration", level_note=note.get(p["id"], note["signal"])))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
for p in props:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    if n > 3: print("sentences", p["id"], n)
