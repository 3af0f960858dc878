"""How each property is decided: oracle, what is symbolic, and why tests cannot settle it."""
NOTES = {
"C01": "Each type is encoded and decoded with symbolic field values in both byte orders, over targets that already hold other symbolic values; oracle: equality with the original, exact consumption of the input, no leak. Tests sample values; here all values of every field at once (e.g. one enum value or one optional state that does not survive). About 10 s.",
"C02": "As C01 for every container the codecs support, with symbolic elements and sizes within the bounds, plus a counting stream that decides the size prefix for sizes around every 7-bit group boundary. Oracle: equality, order and uniqueness kept, exact consumption. About 15 s.",
"C03": "The bytes written are compared with those of an independent writer of the documented format (`harness/types.h`: `wire_out`), for symbolic values; it decides the layout itself, which a round trip cannot (both sides could change together). About 20 s.",
"C04": "Decoders of every type get arbitrary bytes; oracle: memory safety and all engine obligations, only `arpc::errors` escape, decoded bools/enums lie in their domain, containers keep their invariants, nothing leaks. Reaches malformed inputs no fuzz corpus enumerates. About 50 s.",
"C05": "Every encoding is cut at every point; oracle: the read throws eof, exactly, never yields a value. About 45 s.",
"C06": "Graphs of shared, weak and unique pointers with symbolic shape are written and read; oracle: the same aliasing relation, use counts, values. Histories where an object is freed and its address reused are explored with an allocator that reuses (`--reuse`), and orders of addresses with `--desc`.",
"C07": "Pointers to a class hierarchy (multiple levels, offset bases, user-named classes, rings) with symbolic dynamic types; oracle: dynamic type and values come back, or the documented error for classes that are unknown, not derived, or of another structure.",
"C08": "A symbolic 32-bit hash stands on the wire; the read succeeds exactly if it is the hash of the target's type, and all ordered pairs of 19 types read as one another. The solver decides the equality over all 2^32 words.",
"C09": "Symbolic packets through the COBS codec; oracle: reference decoder written from the definition, no zero in the output, bounded length, inverse; arbitrary bytes decode to what the reference says or are refused.",
"C10": "The tag written is that of the reference HighwayHash; with the keyed hash an uninterpreted function, a packet is accepted exactly if its tag is the function's value on its contents, for all keys and contents: any check of fewer bits, bytes or with the wrong key has a model in which it fails.",
"C11": "The implementation against a separate transcription of the specification (`hash.cc`), for symbolic keys, contents and chunkings, both sides simplified to the same expression or decided by Z3.",
"C12": "Frames sent and received through the real protocol with the hash uninterpreted; any sequence of packets, arbitrary frames, damage, truncation and frames around the maximum length. Oracle: exactly the packets sent, or the documented error and resynchronisation at the next frame.",
"C13": "As C12 for the length-prefixed protocol, in both byte orders, with truncations.",
"C14": "One inductive step: an arbitrary valid container (symbolic sorted contents) and one operation with arbitrary arguments, compared with std::set/std::map (also symbolic): results, iterators' positions, contents and exceptions. By induction histories of any length within the size bound.",
"C15": "As C14 against std::multiset/std::multimap, equal keys compared as the standard orders them where tests pin it.",
"C16": "Copy, move, swap and assignment between containers whose ordering rule is part of the object (either rule on each side); oracle: contents and rule of the standard container after the same operations.",
"C17": "Result holders of seven types, with every state, error class and symbolic message, are encoded, decoded over other states, moved and swapped; oracle: the same value, or the same error class and message (unknown classes as unknown_error).",
"C18": "Symbolic errno values through the error functions; oracle: the documented class and the text with the decimal code.",
"C19": "Symbolic histories of reads/writes on string streams; oracle: an array and a position.",
"C20": "A symbolic stream buffer that takes or gives any number of bytes, ends, rejects or throws, under the adapters; oracle: the bytes through, and the documented error.",
"C21": "A stream class with only the primitive under symbolic behaviour; oracle: everything derived from it is equal to repeating the primitive, full reads are all-or-error.",
"C22": "Addresses of every length with symbolic bytes through copies, moves and assignments; lists with a recording stand-in for freeaddrinfo: freed exactly once. Oracle: bytes and flags equal.",
"C23": "Every value of the underlying type is one symbolic variable, for 31 generated enumerations; oracle: the declared name or the numeric fallback.",
"C24": "Hashes are compile-time constants: all pairs of a generated family of about 190 types, split into groups of interchangeable ones, have to be equal exactly within groups; the combination functions are injective in each component over all 32-bit values (solver).",
"C25": "Users take, hold and release references while another thread drops and re-arms; all interleavings within the bounds. Oracle: no access after drop returned (memory checker and ghost state), no deadlock, no race.",
"C26": "Registrations under arbitrary names and any name looked up; oracle: an association list.",
"C27": "select over descriptors, timers, polled conditions and vectors, with symbolic times of everything, signals, spurious wake-ups, cancellations and deadlines. Oracle: the moment and the set of results computed from the symbolic times, equal exactly in virtual time.",
"C28": "Histories (sequential) and interleavings of threads over flags and mutexes; oracle: ghost state of set/owner, mutual exclusion, every waiter gets through, no descriptor leaks.",
"C29": "Histories against a reference queue, and interleavings of producers and consumers; oracle: items once each and in order, capacity never exceeded, no lost wakeup (deadlock), interrupted operations have no effect.",
"C30": "Every way to resolve, move, wait for and drop, sequentially and with two threads in all interleavings; oracle: the outcome of the promise. A future that holds try_again is included (see findings).",
"C31": "Trees of contexts and shields with symbolic operations, wire transfers with symbolic deadlines and bytes, and threads that create children while others cancel or destroy; oracle: a reference tree, exact arithmetic on 64-bit times, no race.",
"C32": "Submitters, workers and a destroying thread in all interleavings within the bounds; oracle: a counter per task, the number running at once, and that nothing is stuck.",
"C33": "Histories over channels with symbolic bytes, short transfers and failures, interleavings of a reader and a writer, symbolic times of cancellation; oracle: the kernel model's bytes, descriptors and options.",
"C34": "Reads and writes over a channel with short transfers, delays and failures; disconnects and reconnects from other threads in all interleavings; packets through both protocols. Oracle: bytes in order, live connection objects, no deadlock.",
"C35": "The real client (its receiver and timeout threads included) over the reconnectable connection and packet protocol on a modelled socket pair; the harness is the server at the other end: it decodes requests, answers in any symbolic order, with unknown and repeated ids, breaks the connection, and lets symbolic times pass. Oracle: outcome, value and exact time of every call, messages seen by the server.",
"C36": "The real server (reactor, pool, futures) over in-memory packet connections that check that they are used by one sender and one receiver at a time and never after being returned; oracle: the responses on each connection, calls seen by the object, exact end times, objects alive. Stopping and breaking at any point of any interleaving within the bounds.",
"C37": "Chains of stages with symbolic kinds, values and failures; oracle: the chain interpreted directly.",
"C38": "Files in each mode over symbolic contents, dialling lists of addresses with symbolic answers, delays and deadlines, listeners with several peers and aborted connections, the resolver thread in all interleavings; oracle: the kernel model.",
}
