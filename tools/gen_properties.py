#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/arpc/"
BC = S + "binary_codecs.h"
NOTEST = "No existing test links or runs this code (the 107 stable tests cover the flat containers and compile-time traits); the property quantifies over every value, which no sample settles."

prop("C01", "Values survive a serialization round trip in either byte order",
 "For every value of every serializable non-container type (integers, floating-point bit patterns, characters, bools, enums, arrays, pairs, tuples, plain aggregates, classes declared with field lists, bases and/or custom save/load, optionals, unique pointers, durations and time points), encoding it with the little- or big-endian encoder and decoding the bytes with the matching decoder yields an equal value. The decoder consumes exactly the bytes the encoder produced, so that values written one after the other to the same stream are read back in order, and what the target object held before decoding does not matter.",
 ["inputs"], "All bit patterns of the fields of the tested type shapes, both byte orders, arbitrary previous contents of the decode target.",
 NOTEST, [BC, S+"serializable_base.h", S+"mpt.h", S+"traits/serialization_traits.h", S+"traits/type_traits.h", S+"config.h"],
 [("binary_encoder / binary_decoder operator() overload sets", BC), ("save_base_classes/save_fields/invoke_save and load twins", BC), ("reverse_bytes block read/write", BC), ("as_tuple aggregate binding", S+"mpt.h")],
 ["decoded object == original", "stream position == encoded length"])
prop("C02", "Containers survive a serialization round trip, whatever their size",
 "For every string, vector, deque, list, set, map, multiset, multimap, unordered and flat associative container, encoding and then decoding in either byte order yields a container with the same elements (in the same order for sequences, the same keys and mapped values, up to the order of equal keys, for associative ones), including empty containers, nested containers and containers with 128 or more elements. Decoding replaces whatever the target container held, and consumes exactly the bytes written.",
 ["inputs"], "All element values, sizes up to the stated bound including both sides of the multi-byte size-prefix boundary (127/128, and the full 64-bit range of the size prefix), arbitrary previous contents of the target.",
 NOTEST, [BC, S+"traits/container_traits.h", S+"container/flat_map.h", S+"container/flat_set.h", S+"container/detail/flat_tree.h"],
 [("write_variant / read_variant size prefix", BC), ("block versus per-element sequence paths", BC), ("associative insert path", BC), ("is_associative/can_be_resized/has_static_size traits", S+"traits/container_traits.h")],
 ["decoded container == original", "stream position == encoded length"])
prop("C03", "The wire format is the documented one",
 "The bytes an encoder produces are fully determined by the value: scalars occupy their size in the stream's byte order, booleans and presence flags one byte 0/1, sizes and object/class identifiers a base-128 little-endian variable-length integer (high bit set on all but the last byte, no superfluous groups) regardless of byte order, fixed-size arrays, tuples and classes are the concatenation of their parts without padding, with bases before fields before custom data. A polymorphic object is its class number (from 0 in order of first use), followed on first use by the class name and structure hash, then its parts. Conversely, a decoder understands that layout: bytes laid out by an independent implementation of this description decode to the described value.",
 ["inputs"], "All values of the tested shapes, all 64-bit sizes for the variable-length integer, both byte orders.",
 NOTEST, [BC, S+"io_adapters.cpp", S+"string_adapters.cpp"],
 [("write_variant / read_variant", BC), ("write_block / read_block", BC), ("presence flags", BC)],
 ["bytes appended to the output stream", "value decoded from hand-laid-out bytes"])
prop("C04", "Arbitrary input bytes never corrupt memory or escape the error model",
 "Decoding any byte sequence whatsoever (through a decoder for any supported type, or through a packet codec or packet protocol) either produces a valid value or throws one of the library's own error classes. It never reads or writes outside an object, never uses uninitialised or freed memory, never produces a boolean, presence flag or polymorphic object outside its type's domain, always terminates, and leaks nothing (cycles of shared pointers apart, as the input can describe them).",
 ["inputs"], "All byte strings up to the stated length for a decoder of each supported kind of type.",
 NOTEST, [BC, S+"registry.h", S+"packet_codecs.cpp", S+"packet_protocols.h", S+"string_adapters.cpp"],
 [("read_size/read_variant bounds", BC), ("object_id / class_id range checks", BC), ("input_stream::read_fully", S+"io_adapters.cpp"), ("COBS length checks", S+"packet_codecs.cpp")],
 ["exception type seen by the caller", "memory accesses"])
prop("C05", "Truncated input is reported as end-of-file, never as a value",
 "If the bytes of an encoded value are cut at any point before their end, decoding the rest of the stream throws the end-of-file error; it never returns normally with a partial or stale value.",
 ["inputs", "fault_sequences"], "All values of the tested shapes and every cut position.",
 NOTEST, [BC, S+"io_adapters.cpp", S+"string_adapters.cpp"],
 [("input_stream::read_fully short-read check", S+"io_adapters.cpp"), ("string_input_stream::read/getc", S+"string_adapters.cpp")],
 ["exception type thrown by the decoder"])
prop("C06", "Pointer graphs keep their shape across serialization",
 "Encoding a structure containing shared and weak pointers (each owning the object it points to) and decoding it gives an isomorphic structure: pointers that were equal stay equal, pointers that were different stay different, null stays null, cycles are preserved and each object is transmitted once. A stream whose object numbers are out of sequence, or that refers to an object under a pointer type it was not created with, is rejected with the data-mismatch error.",
 ["inputs", "histories"], "All sharing patterns over the stated number of pointer slots and nodes, all node contents, all object numbers on the wire.",
 NOTEST, [BC, S+"registry.h"],
 [("shared_object_map_ numbering", BC), ("shared_object_vector_ with type ids", BC), ("update_pointer before the body is decoded", BC)],
 ["pointer identity in the decoded structure", "data_mismatch"], [("shared_object_map_", "objects already written on this encoder", BC), ("shared_object_vector_", "objects already read on this decoder", BC)])
prop("C07", "Polymorphic pointers keep their dynamic type, and only valid ones are built",
 "A pointer to a polymorphic base decodes to an object of the same registered dynamic class and the same field values as the one encoded, whether held by a unique or shared pointer and however often the class appears in the stream. A stream naming an unregistered class fails with not-found, and one naming a class that is not a subclass of the static pointed-to type, carrying a different structure hash, or using an out-of-sequence class number fails with data-mismatch, without any object of the wrong type becoming reachable.",
 ["inputs", "histories"], "All class sequences up to the stated length over the registered hierarchy, all field values, all class numbers, hashes and (bounded) class names on the wire.",
 NOTEST, [BC, S+"registry.h", S+"registry.cpp", S+"dynamic_base_class.h", S+"dynamic_base_class.cpp", S+"serializable.h", S+"config.h"],
 [("class_info_map_ / class_info_vector_ numbering", BC), ("dynamic_object_factory, encoder/decoder/subclass registries", S+"registry.h"), ("portable class names", S+"dynamic_base_class.h")],
 ["dynamic type and fields of the decoded object", "error class"])
prop("C08", "Verified reads accept only data written with the same structure",
 "Data written with the structure-verification tag decodes under the same tag for the same type; decoding it as a type with a different structure hash, or when any bit of the transmitted hash is changed, throws data-mismatch before any field of the target is modified.",
 ["inputs", "programs"], "All values and all 32-bit hash words on the wire for the tested pairs of types.",
 NOTEST, [BC, S+"type_hash.h"],
 [("verify_structure overloads", BC), ("type_hash_v", S+"type_hash.h")],
 ["data_mismatch", "target object unchanged"])
prop("C09", "COBS framing is zero-free, bounded and invertible",
 "For every packet, the COBS-encoded form contains no zero byte, is at least one byte longer and at most one plus one byte per 254 longer than the packet, and decodes back to exactly the packet. Decoding a zero-free byte string that is not the encoding of any packet, such as an empty one or one cut short, is rejected with data-mismatch.",
 ["inputs"], "All packets up to the stated length, including those whose non-zero runs straddle the 254-byte block limit.",
 NOTEST, [S+"packet_codecs.cpp", S+"packet_codecs.h"],
 [("cobs_codec::encode in-place back-to-front rewrite", S+"packet_codecs.cpp"), ("cobs_codec::decode", S+"packet_codecs.cpp")],
 ["encoded bytes", "decoded bytes", "data_mismatch"])
prop("C10", "The packet authentication code accepts exactly untampered packets",
 "For every key and packet, the authentication codec appends the 8-byte keyed hash of the packet in little-endian order, and decoding the result under the same key restores the packet. Decoding accepts a byte string only if its last 8 bytes equal the keyed hash of everything before them: any change to the tag, or anything shorter than a tag, is rejected with data-mismatch.",
 ["inputs"], "All keys, packets up to the stated length, and all tags.",
 NOTEST, [S+"packet_codecs.cpp", S+"packet_codecs.h", S+"highway_hash.cpp"],
 [("mac_codec::encode/decode", S+"packet_codecs.cpp"), ("highway_hash::hash64", S+"highway_hash.cpp")],
 ["encoded bytes", "data_mismatch"])
prop("C11", "HighwayHash matches its specification for every input and chunking",
 "For every key and message, the 64-, 128- and 256-bit hashes equal those of the published HighwayHash algorithm. Feeding the message in any sequence of chunks gives the same result as hashing it at once, and reading a digest does not disturb the running state.",
 ["inputs", "histories"], "All keys and contents for message lengths and chunk boundaries up to the stated bound.",
 NOTEST, [S+"highway_hash.cpp", S+"highway_hash.h"],
 [("ProcessAll / update / remainder handling", S+"highway_hash.cpp"), ("append buffering", S+"highway_hash.cpp"), ("PermuteAndUpdate / modular reduction", S+"highway_hash.cpp")],
 ["digest values"], [("packet_/num_", "bytes of an incomplete 32-byte packet", S+"highway_hash.h")])
prop("C12", "The serial-line protocol delivers intact packets and nothing else",
 "Any sequence of packets sent over the serial-line protocol is received as the same sequence. A received frame is delivered only if it unframes and authenticates, otherwise data-mismatch is thrown and the next receive starts at the next frame; a frame longer than the configured maximum is refused with out-of-range, and a stream that ends inside a frame gives end-of-file.",
 ["inputs", "fault_sequences"], "All packet contents and sequences up to the stated lengths, all corruptions of a frame, every truncation point, maximum packet sizes around the frame length.",
 NOTEST, [S+"packet_protocols.h", S+"packet_codecs.cpp"],
 [("serial_line_packet_protocol::send/receive", S+"packet_protocols.h")],
 ["packets returned by receive", "error class", "stream position"])
prop("C13", "The protected-stream protocol delivers the packets that were sent",
 "Any sequence of packets sent over the protected-stream protocol (either byte order) is received as the same sequence, each receive consuming exactly one packet; each packet is flushed when sent, and a stream that ends inside a packet gives end-of-file.",
 ["inputs", "fault_sequences"], "All packet contents and sequences up to the stated lengths, every truncation point.",
 NOTEST, [S+"packet_protocols.h", BC],
 [("protected_stream_packet_protocol::send/receive", S+"packet_protocols.h")],
 ["packets returned by receive", "stream position"])
prop("C14", "flat_set and flat_map behave like the standard unique ordered containers",
 "After any history of construction, insertion (plain, hinted, in place, of ranges or lists), erasure (by key, position or range), lookup, subscripting, clearing and assignment, a flat set or map holds the same sorted, duplicate-free elements as the standard container after the same history, and every operation returns the corresponding result (iterator position, inserted flag, count, bounds, mapped reference or out-of-range error).",
 ["inputs", "histories"], "Any valid container state up to the stated size with arbitrary keys, any single operation with arbitrary arguments (inductive step), plus construction from arbitrary ranges.",
 "The existing tests check a few literal sequences; they cannot cover every state and argument, and in particular not comparators with state or colliding keys.",
 [S+"container/flat_set.h", S+"container/flat_map.h", S+"container/detail/flat_tree.h"],
 [("lower_bound/upper_bound based insert, emplace, erase", S+"container/detail/flat_tree.h"), ("sort and unique on construction", S+"container/detail/flat_tree.h"), ("operator[]/at/insert_or_assign/try_emplace", S+"container/flat_map.h")],
 ["contents and iteration order", "return values"])
prop("C15", "flat_multiset and flat_multimap behave like sorted multi-containers",
 "After any history, a flat multiset or multimap holds exactly the elements inserted and not erased, sorted by key; lookups, counts and ranges report all elements with an equivalent key, erasing by key removes all of them, and erasing one position removes just that element. Keys that compare equivalent never get lost or merged.",
 ["inputs", "histories"], "Any valid container state up to the stated size with arbitrary (repeating) keys, any single operation with arbitrary arguments, construction from arbitrary ranges.",
 "The existing tests check a few literal sequences; they cannot cover every multiset of keys and every operation.",
 [S+"container/flat_set.h", S+"container/flat_map.h", S+"container/detail/flat_tree.h"],
 [("multi variants of insert/emplace/erase", S+"container/detail/flat_tree.h")],
 ["contents as a multiset", "return values"])
prop("C16", "Copies, moves and swaps of flat containers preserve contents and ordering rule",
 "Copying, moving, assigning or swapping flat containers transfers both the elements and the ordering they were built with: the destination is equal to the source's former value, stays sorted under its comparator for all later operations, the copy is independent of the source, and self-assignment changes nothing.",
 ["inputs", "histories"], "Any valid states up to the stated size, stateful comparators in any state, any following insertion or lookup.",
 "The existing tests only use stateless comparators and literal contents.",
 [S+"container/detail/flat_tree.h", S+"container/flat_map.h", S+"container/flat_set.h"],
 [("copy/move constructors, assignment, swap", S+"container/detail/flat_tree.h")],
 ["contents, lookups and key_comp of the destination"])
prop("C17", "Results and errors of a call reach the other side unchanged",
 "A result holder that carries a value, an error, or nothing decodes to one that carries the same: a value compares equal; an error is rethrown as the same library error class with the same message (unknown classes become the unknown error, foreign exceptions keep their message); reading an empty holder throws invalid-state. An error decodes correctly whatever the result type, and decoding into a holder that already had content fully replaces it.",
 ["inputs", "histories"], "All values, all library error classes, all messages up to the stated length, arbitrary type names on the wire, arbitrary previous state of the target holder.",
 NOTEST, [S+"result_holder.h", S+"errors.h", S+"errors.cpp"],
 [("result_holder::save/load", S+"result_holder.h"), ("error_factory::analyze_exception / throw_error", S+"errors.cpp")],
 ["value() / exception thrown by the decoded holder"])
prop("C18", "Operating-system error codes map to the documented errors",
 "Reporting an I/O failure by code throws try-again for the would-block codes, does nothing for the codes of a non-blocking connection still in progress, and for every other code throws an I/O error whose message is the given text followed by the decimal code; errors raised by class name throw exactly that class with exactly that message, and unknown names the unknown error.",
 ["inputs"], "All 32-bit codes for the class of error, all codes from -12000 to 12000 and around every power of ten and the extremes for the digits, messages and class names up to the stated length.",
 NOTEST, [S+"errors.cpp", S+"errors.h"],
 [("throw_io_error", S+"errors.cpp"), ("error_factory::throw_error", S+"errors.cpp"), ("ERROR_CLASS registration", S+"errors.h")],
 ["class and message of the exception"])
prop("C19", "In-memory streams read and write exactly the bytes asked for",
 "The string output stream appends exactly the given bytes in order and nothing else. The string input stream returns the string's bytes from its position on, never more than available, advances by exactly what it returned, reports end-of-file only at the end, and repositioning past the end is refused with out-of-range while leaving the position unchanged.",
 ["inputs", "histories"], "All contents, positions (full 64-bit) and operation sequences up to the stated length.",
 NOTEST, [S+"string_adapters.cpp", S+"string_adapters.h"],
 [("string_input_stream::read/getc/pos", S+"string_adapters.cpp"), ("string_output_stream::write/putc", S+"string_adapters.cpp")],
 ["bytes returned", "pos()", "error class"])
prop("C20", "Standard-stream adapters pass bytes through and report failures",
 "Over any standard stream, the input adapter returns exactly the bytes the stream delivers, reports a short count or end-of-file only when the stream ends, and an I/O error when the stream fails; the output adapter delivers exactly the given bytes in order, reports an I/O error when the stream rejects them, and flushes when asked and on destruction.",
 ["inputs", "fault_sequences"], "All stream contents up to the stated length, failure injected at any byte, all operation sequences up to the stated length.",
 NOTEST, [S+"iostream_adapters.cpp", S+"iostream_adapters.h"],
 [("istream_input_stream", S+"iostream_adapters.cpp"), ("ostream_output_stream", S+"iostream_adapters.cpp")],
 ["bytes seen by the stream buffer", "error class"])
prop("C21", "A stream needs only one primitive, and full reads are all-or-error",
 "An input stream that implements only block reading, or only single-character reading, offers the other through the base class with the same bytes in the same order; likewise for output streams. A full read either fills the whole buffer or throws end-of-file, and errors other than end-of-file pass through unchanged.",
 ["inputs", "fault_sequences"], "All contents, request lengths and failure points up to the stated bound.",
 NOTEST, [S+"io_adapters.cpp", S+"io_adapters.h"],
 [("input_stream::read/getc/read_fully defaults", S+"io_adapters.cpp"), ("output_stream::write/putc defaults", S+"io_adapters.cpp")],
 ["bytes returned / written", "error class"])
prop("C22", "Network addresses and address lists own what they hold",
 "An endpoint holds the names and settings last given to it. Copying or moving an address yields one with the same socket address bytes, size, family, type and protocol, which owns its own memory; the original or moved-from object stays valid to destroy, and nothing is freed twice, leaked, freed as another type or left dangling. An address list visits exactly the resolver's results in order and releases them exactly once whatever moves it went through. An address prints as host:port, or [host]:port if the host contains a colon, and a failure to print is an I/O error.",
 ["inputs", "histories"], "All socket address contents of the tested sizes, list lengths and operation sequences up to the stated bound.",
 NOTEST, [S+"address.cpp", S+"address.h"],
 [("address copy/move/destroy", S+"address.cpp"), ("address_list and iterators", S+"address.h")],
 ["contents seen through the accessors", "memory accesses"])
prop("C23", "Enumerations report the declared name of every value",
 "For every value of the underlying type, the name of a declared enumerator is its identifier, whatever its numeric value or order of declaration, and any other value yields the declared fallback name.",
 ["inputs"], "All values of the underlying type.",
 NOTEST, [S+"enum.h", S+"preprocessor.h"],
 [("enum_names<T>::name linear search", S+"enum.h"), ("ARPC_ENUM", S+"enum.h")],
 ["returned string"])
prop("C24", "Structure hashes tell incompatible structures apart",
 "Two types whose serialized layouts are interchangeable by design have the same structure hash, independent of declaration site, and types whose wire layout differs (scalar size or signedness, element type, array length, field count or order, optionality, pointer kind, duration period, base classes, custom serialization version) have different ones.",
 ["programs", "configurations"], "A family of generated type pairs covering each kind of layout difference; a hash over every 32-bit seed value where the hash is a function of data.",
 "The existing type_hash tests compare a few literal hashes and pairs.",
 [S+"type_hash.h", S+"traits/type_traits.h", S+"mpt.h"],
 [("compute_type_hash specialisations", S+"type_hash.h")],
 ["type_hash_v values", "data_mismatch from a verified read"])
prop("C25", "A usage lock outlives its users and never hands out a dropped object",
 "Dropping a usage lock returns only after every reference obtained from it has been released; once dropped (or never armed) it refuses to hand out the object, with its configured error or a null; re-arming makes the new object available. No interleaving of users with one dropping thread deadlocks, races, or lets a user reach the object after the drop returned.",
 ["schedules", "histories"], "All interleavings at synchronisation operations of the stated threads, all get/release histories up to the stated length.",
 NOTEST, [S+"usage_lock.h"],
 [("shared_ptr with signalling deleter", S+"usage_lock.h"), ("done_ flag under mutex and condition", S+"usage_lock.h")],
 ["return of drop versus live references", "error class"], [("done_", "all references released", S+"usage_lock.h")])
prop("C26", "Class registries resolve exactly what was registered",
 "Looking up a class by name succeeds exactly for the names registered, returns the factory, hash and codec functions of that class, and fails with not-found for any other name; registering a name twice is refused with invalid-state and leaves the first registration in place; a class is reported as a subclass exactly of its registered ancestors.",
 ["inputs", "programs"], "All names up to the stated length, all pairs of classes of the tested hierarchy.",
 NOTEST, [S+"registry.h", S+"registry.cpp", S+"dynamic_base_class.h", S+"errors.h"],
 [("dynamic_object_factory and per-codec registries", S+"registry.h"), ("dynamic_subclass_registry", S+"registry.h")],
 ["lookup result or error class"])
SCHED = "All interleavings at synchronisation operations and system calls with the stated number of threads and preemptions, all histories up to the stated length, all values and times in the stated ranges."
prop("C27", "select reports exactly what happened, at the first moment something does",
 "A select over descriptors, timers, polled conditions and vectors of awaitables returns as soon as the first of them is active and not before: each descriptor awaitable is reported exactly if its descriptor is ready then, each timer at its expiry counted from the start of the select whatever else wakes it meanwhile, results stay matched with their awaitables, reactions run once and their value or exception is the reported one, and a reaction that asks to try again is not reported. Cancelling the current context (or an ancestor), or its deadline, interrupts the wait with its error and without running reactions or consuming data; signals and timeouts of any length change nothing.",
 ["inputs", "schedules", "fault_sequences"], "All ready times, timeouts, cancellation times and combinations within the stated ranges of virtual time.",
 NOTEST, [S+"select.h", S+"awaitable.h", S+"wait.h", S+"mpt.h"],
 [("select() poll loop over pollfds and the minimum timeout", S+"select.h"), ("awaitable descriptors and timeouts", S+"awaitable.h")],
 ["result_holder of each awaitable, time taken, error class"])
prop("C28", "Flags and mutexes are safe and selectable",
 "A flag is level-triggered: waiting on it ends exactly while it is set, any number of sets is undone by one reset, every waiter is released by a set that is not reset, and setting or resetting works under a cancelled context. A mutex has at most one owner; try_lock, lock, async_lock, can_lock and the standard lock guards agree on whether it is free; every waiting locker gets its turn; a locker interrupted by cancellation does not own it; unlocking works under a cancelled context. No interleaving deadlocks or races, and their descriptors are closed on destruction.",
 ["schedules", "histories"], SCHED, NOTEST, [S+"flag.h", S+"flag.cpp", S+"mutex.h", S+"mutex.cpp"],
 [("set_ and the pipe that mirrors it", S+"flag.cpp"), ("the pipe holding the mutex's token", S+"mutex.cpp")],
 ["is_set, select results, ownership"], [("one byte in the pipe", "the flag is set / the mutex is free", S+"flag.cpp")])
prop("C29", "Queues and semaphores deliver each item once, in order, within capacity",
 "Values put into a queue come out exactly once and in the order they went in, never more than its capacity are held, size/empty/full/capacity and readiness report the truth, putting blocks or asks to try again exactly when full and getting exactly when empty; an operation that times out or is interrupted by cancellation has no effect. A semaphore admits at most its capacity. Threads blocked in either are woken when they can proceed; no interleaving loses, duplicates or reorders an item, deadlocks or races.",
 ["schedules", "histories"], SCHED, NOTEST, [S+"queue.h", S+"semaphore.h"],
 [("data_, can_get_ and can_put_ flags under mu_", S+"queue.h")],
 ["values out, size, readiness"], [("update_flags", "readiness flags match the contents", S+"queue.h")])
prop("C30", "A future gets exactly the outcome of its promise",
 "Whatever way a promise is resolved (value, exception, result holder, destruction, or being assigned over), its future becomes ready then and not before, and yields that value, that exception or invalid-state for a broken promise, whether it is polled, waited for, selected on or moved; resolving twice is refused; an interrupted wait loses nothing; promise and future may be moved, dropped or destroyed in either order and from different threads, and the shared state is freed exactly once.",
 ["schedules", "histories"], SCHED, NOTEST, [S+"future.h", S+"future.cpp"],
 [("future_state result and flag under mu_", S+"future.h"), ("release_reader and release_writer", S+"future.cpp")],
 ["value or error class, readiness, live objects and descriptors"])
prop("C31", "Contexts propagate cancellation, deadlines and data",
 "Cancelling a context cancels exactly its descendants that are not behind a shield, including those created later or concurrently; a new context inherits its parent's deadline and data, deadlines only ever tighten, data set later stays local, and reading unset data yields the default; the innermost live context is current in its thread. Sent over the wire a context carries the time left, its data and cancellation, and the receiver keeps the tighter deadline; malformed bytes are refused without undefined behaviour, and deadlines of any magnitude are represented or saturate. Destroying a context cancels its children and returns only when none is left, in any interleaving, without races.",
 ["inputs", "schedules", "histories"], SCHED, NOTEST, [S+"context.h", S+"context.cpp"],
 [("children_ under children_mu_", S+"context.cpp"), ("deadline_ and data_ under data_mu_", S+"context.cpp"), ("save and load", S+"context.h")],
 ["is_cancelled, deadline, get<T>, interruption of waits"])
prop("C37", "Composed awaitables and futures behave as the composition of their stages",
 "then, except and decorate build an awaitable or future whose outcome is that of applying the stages in order to the original outcome: a then stage runs exactly on values, an except stage exactly on errors of its class (or derived ones), a decorator wraps everything before it; each stage that applies runs once and only when the result is taken; values, void and move-only results and exceptions pass between stages unchanged.",
 ["inputs", "programs"], "All chains of the stated number of stages over five kinds of stage, all values, every combination of failures.",
 NOTEST, [S+"function.h", S+"awaitable.h", S+"future.h"],
 [("compose_pipe, compose_wrap, compose_catch", S+"function.h")],
 ["outcome, stages run"])
prop("C32", "Every task given to an executor runs exactly once",
 "A thread pool runs every task submitted to it exactly once, with at most as many at the same time as it has workers and as many as that when there is work, whatever the number of submitters and workers; submitting blocks only while the bounded queue is full and no worker is free, and a cancelled submitter's task has not run. Destroying the pool interrupts its workers and returns. A thread starts in a context of its own, child of its creator's (top for daemons), is interrupted through it, and may be joined, moved and destroyed; daemon threads are cancelled and joined when destroyed. No interleaving deadlocks or races.",
 ["schedules", "histories"], SCHED, NOTEST, [S+"executor.h", S+"executor.cpp", S+"thread.h"],
 [("slots_ and pending_ under mu_", S+"executor.h"), ("thread contexts", S+"thread.h")],
 ["tasks run, order, blocking, interruption"])
prop("C33", "Channels own their descriptor, and move bytes without loss",
 "A channel closes its descriptor exactly once, when closed, reset or destroyed; duplicates, moves, releases and swaps keep ownership right. Bytes read from a pipe, socket or file are those written, in order, once each, whatever the sizes, partial transfers, failures and interruptions by signals, cancellation or deadlines; the end of data is reported only there, errors of the system are reported as errors, and only a broken peer, not a signal, ends a write. Accepted, connected, bound and non-blocking channels and socket options do what was asked for, addresses of peers included.",
 ["inputs", "histories", "fault_sequences"], "All histories of the stated length over the stated channels, byte values, transfer sizes, times and single faults; the system calls are those of the kernel model.",
 NOTEST, [S+"channel.h", S+"channel.cpp", S+"pipe.h", S+"pipe.cpp", S+"address.h", S+"address.cpp"],
 [("fd_ and its closing", S+"channel.cpp"), ("read, write and their async forms", S+"channel.cpp"), ("accept, connect and options", S+"channel.cpp")],
 ["bytes, error class, open descriptors, options set"])
prop("C34", "Connections deliver whole data, and can be interrupted and reconnected",
 "A connection reads exactly what was asked for, or what there is before the end, and writes everything in order however slowly; whole packets arrive intact, in order and once each, and a damaged or truncated one is refused. Disconnecting from any thread interrupts pending reads and writes, which then fail, and never deadlocks. A reconnectable connection refuses use while down, connects again through its factory with the arguments it was given, and destroys the previous connection only when no thread uses it, in any interleaving of users, connects and disconnects.",
 ["inputs", "schedules", "histories", "fault_sequences"], SCHED, NOTEST, [S+"connection.h", S+"connection.cpp", S+"packet_protocols.h"],
 [("channel_connection read, write and disconnect", S+"connection.cpp"), ("reconnectable_connection over a usage_lock", S+"connection.h"), ("packet_connection_impl", S+"connection.h")],
 ["bytes, packets, error class, live connections"])
prop("C35", "A client matches every response to its call and loses none",
 "Each call on a remote object sends one request with a fresh id, the object, the method, its signature, the caller's context and arguments, and ends with the result or error of the response carrying that id, whatever the order of responses and whatever unknown or repeated ids arrive among them. A call ends at the earliest of its response, its time limits, its cancellation (of which the server is told, with its id) and the loss of the connection, without affecting other calls but for the last; after a loss the next call connects again. Calls from several threads do not mix their bytes. Destroying the client at any moment returns, ending what is pending. No interleaving deadlocks or races.",
 ["schedules", "inputs", "histories", "fault_sequences"], SCHED, NOTEST, [S+"client.h", S+"connection.h", S+"future.h"],
 [("pending_ by request id under pending_mu_", S+"client.h"), ("receive loop", S+"client.h"), ("timeouts and cancellations thread", S+"client.h")],
 ["bytes sent, outcome and time of each call"])
prop("C36", "A server executes each request once and answers it on its connection",
 "Every well-formed request gets exactly one response, with its id, on its connection, holding the outcome of running the method of the object registered last under that name with those arguments, or the reason it could not be run, and the method runs at most once. Its context carries the caller's data and the earliest of the caller's deadline and the server's limit; a cancellation for its id on its connection, and nothing else, interrupts it. A connection that ends, breaks or sends malformed messages is dropped once, without affecting others and only when nothing uses it. The server serves however many requests its pool can take, can be stopped at any time and started again, and its acceptor survives errors and keeps to its limit. No interleaving deadlocks or races.",
 ["schedules", "inputs", "histories", "fault_sequences"], SCHED, NOTEST, [S+"server.h", S+"executor.h", S+"future.h"],
 [("reactor over connections_ and requests_", S+"server.h"), ("connection_wrapper", S+"server.h"), ("execute and the registered methods", S+"server.h"), ("connection_producer", S+"server.h")],
 ["responses on each connection, methods run, live connections"])
prop("C38", "Files, endpoints and listeners open what they were asked for",
 "Opening a file in each mode reads, truncates, appends to or creates it, with ordinary permissions, exactly as that mode says, or fails without leaving a descriptor open. Dialling tries the addresses of an endpoint in turn until one accepts, within the caller's deadline, and fails only when none does; resolution runs in the background, is interrupted by cancellation, and gives each caller its own answer. A listener on several addresses returns each incoming connection once, even when others abort.",
 ["inputs", "schedules", "fault_sequences"], SCHED, NOTEST, [S+"file.h", S+"file.cpp", S+"socket.h", S+"socket.cpp", S+"address.h", S+"address.cpp"],
 [("open flags and modes", S+"file.cpp"), ("dial and listener::accept", S+"socket.cpp"), ("address_resolver thread", S+"address_resolver.cpp")],
 ["descriptors, file contents, connections, error class"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
