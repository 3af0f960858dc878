"""What each property's check runs: harness entries, bounds and expectations."""
CORE = ["errors.cpp", "io_adapters.cpp", "string_adapters.cpp", "registry.cpp", "dynamic_base_class.cpp"]
HARNESS = {
    "roundtrip.cc": {"repo": CORE},
    "containers.cc": {"repo": CORE},
    "wire.cc": {"repo": CORE},
    "graphs.cc": {"repo": CORE},
    "malformed.cc": {"repo": CORE},
    "hash.cc": {"repo": ["errors.cpp", "highway_hash.cpp", "packet_codecs.cpp"]},
    "flat.cc": {"repo": []},
    "misc.cc": {"repo": CORE},
    "registry.cc": {"repo": CORE},
    "typehash.cc": {"repo": CORE},
    "streams.cc": {"repo": ["errors.cpp", "io_adapters.cpp", "iostream_adapters.cpp"]},
    "enums.cc": {"repo": []},
    "usage.cc": {"repo": ["errors.cpp"], "threads": True},
    "address.cc": {"repo": ["address.cpp", "errors.cpp"]},
    "packets.cc": {"repo": CORE + ["packet_codecs.cpp"]},
}
ASYNC = ["errors.cpp", "address.cpp", "awaitable.cpp", "channel.cpp", "context.cpp", "flag.cpp", "pipe.cpp", "wait.cpp", "registry.cpp", "dynamic_base_class.cpp"]
HARNESS["prims.cc"] = {"repo": ASYNC + ["mutex.cpp"], "threads": True, "kernel": True}
JOBS = []
ASSUMPTIONS = [
    "The code encoded is the LLVM bitcode clang 18 emits (C++17, -fno-rtti as in the repository's build, -O1 with LLVM's passes disabled, UBSan traps) from the current /repo/src; the repository's own build uses g++, covered by replaying witnesses and counterexamples in a g++ build.",
    "libstdc++ templates are encoded as they instantiate; libc, operator new, exception handling, __cxa_* and the red-black tree / hashing helpers compiled into libstdc++.so are models in rt/rt.cpp and engine/symx.cpp.",
    "Memory model: every allocation is a separate object at a fixed 16-aligned address; bounds, lifetime, allocation kind/size and initialisation are checked per byte. operator new of more than 1 MiB throws bad_alloc.",
    "Symbolic offsets and sizes are made concrete by enumerating every value the path allows (a fork per value), so nothing is sampled.",
    "Z3 4.8.12 decides the queries; the thorough tier re-decides a dumped sample with cvc5 and a newer Z3.",
]
EXTRA_ASSUMPTIONS = {}
TECHNIQUE = {}
LEVEL_NOTE = {}
NOT_APPLICABLE = {}


def job(prop, h, entry, quick=None, thorough=None, reach=("done",), bounds="", **kw):
    q = quick if quick is not None else [[]]
    JOBS.append(dict(prop=prop, h=h, entry=entry, quick=q, thorough=thorough if thorough is not None else q, reach=list(reach), bounds=bounds, **kw))


for e in "ints chars enums aggs tuples classes optional unique time sequence".split():
    job("C01", "roundtrip.cc", "rt_" + e, bounds="all field values; strings/sequences of at most 2 elements; both byte orders")

for e in "seq seq2 set map unord nest".split():
    job("C02", "containers.cc", "ct_" + e, quick=[[2, 1]], thorough=[[3, 2]], bounds="at most p0 elements (nested: p1), all element values, targets with arbitrary previous contents")
job("C02", "containers.cc", "ct_prefix", quick=[[70000]], thorough=[[2200000]], bounds="container sizes on both sides of every 7-bit group boundary up to p0, via a counting stream; element values irrelevant")
for e in "big_string big_vector big_list big_set".split():
    job("C02", "containers.cc", "ct_" + e, bounds="126..130 elements (both sides of the two-byte size prefix), all element values")

for e in "scalars aggs opts".split():
    job("C03", "wire.cc", "wf_" + e, bounds="all values, sequences of at most 2 elements, both byte orders; oracle: an independent writer of the documented format")
for e in "seqs assoc".split():
    job("C03", "wire.cc", "wf_" + e, quick=[[2]], thorough=[[3]], bounds="all values, sequences of at most p0 elements, both byte orders; oracle: an independent writer of the documented format")
for e in "size text tagged shared".split():
    job("C03", "wire.cc", "wf_" + e, bounds="all values, sequences of at most 2 elements, both byte orders; oracle: an independent writer of the documented format")

job("C03", "graphs.cc", "wf_poly", quick=[[2]], thorough=[[3]], bounds="p0 pointers, unique or shared, to any of the class hierarchy, all field values, both byte orders")

for e in "fixed flags seq seq2 assoc assoc2 size".split():
    job("C04", "malformed.cc", "bd_" + e, quick=[[0]], thorough=[[1]], opts=["--conc-fp"], bounds="arbitrary bytes of every length up to the type's largest short encoding (plus p0); bytes that may be sizes are 0..3, 7f, 80, 81 or ff, all prefix lengths up to 12")
for e in "ptrs tree".split():
    job("C04", "malformed.cc", "bd_" + e, quick=[[6]], thorough=[[8]], bounds="at most p0 arbitrary bytes (size bytes confined as in bd_fixed)")
for e in "fixed opts seqs assoc".split():
    job("C05", "malformed.cc", "tr_" + e, quick=[[2]], thorough=[[3]], bounds="values with at most p0 elements, every truncation point, both byte orders")
for e in "big many".split():
    job("C05", "malformed.cc", "tr_" + e, bounds="sequences of 127..130 elements, every truncation point")

job("C06", "graphs.cc", "pg_graph", quick=[[2, 2]], thorough=[[2, 3]], bounds="graphs of p0 objects and p1 references of any shape, all values")
for e in "mixed misuse".split():
    job("C06", "graphs.cc", "pg_" + e, bounds="fixed programs mixing pointer kinds, all values")
job("C06", "graphs.cc", "pg_mixed", opts=["--desc"], tag="_desc", bounds="as pg_mixed, with allocation addresses descending")
job("C06", "graphs.cc", "pg_history", quick=[[3]], thorough=[[6]], opts=["--reuse"], replay="val", bounds="histories of p0 writes of objects made, dropped and reallocated at the same address")
job("C07", "graphs.cc", "pp_poly", quick=[[2, 1]], thorough=[[3, 1]], bounds="p0 pointers to any of the class hierarchy nested p1 deep, all values")
for e in "statics rings named renumber crosstype".split():
    job("C07", "graphs.cc", "pp_" + e, bounds="fixed programs, all values")
job("C07", "graphs.cc", "pp_statics", opts=["--desc"], tag="_desc", bounds="as pp_statics, with allocation addresses descending")
job("C04", "graphs.cc", "pp_after", quick=[[4]], thorough=[[5]], timeout=200, bounds="five kinds of failed read, then at most p0 arbitrary bytes, three reads")
job("C04", "graphs.cc", "pp_bytes", quick=[[6]], thorough=[[8]], timeout=200, bounds="at most p0 arbitrary bytes after valid headers of three classes")

job("C11", "hash.cc", "hh_whole", quick=[[70]], thorough=[[200]], bounds="all keys and contents, message lengths 0..p0, all three digests")
job("C11", "hash.cc", "hh_chunks", quick=[[11, 0]], thorough=[[13, 1]], bounds="total lengths 0,1,16,31..33,40,63..65,70(,96,100), two cuts anywhere (quick: chunk lengths 0,1,7 mod 8), digests read between")
job("C11", "hash.cc", "hh_reset", bounds="messages of 0,3,31,32,37 bytes before and after reset/copy")
job("C10", "hash.cc", "mc_encode", bounds="packets of 0..3,7,8,15,16,19,31..33,64 bytes, all contents, all keys and the default key, real HighwayHash")
UFH = "the keyed hash is an uninterpreted function (C11 decides the real one)"
job("C09", "packets.cc", "cb_small", quick=[[6]], thorough=[[9]], bounds="packets of at most p0 arbitrary bytes, every truncation")
job("C09", "packets.cc", "cb_long", quick=[[8]], thorough=[[10]], bounds="packets of 253..256, 507..510 (762, 763) bytes, zeros possible at three positions around each block limit")
job("C09", "packets.cc", "cb_decode", quick=[[5]], thorough=[[7]], reach=["accepted", "rejected"], bounds="arbitrary byte strings of at most p0 bytes")
job("C09", "packets.cc", "cb_decode_long", reach=["accepted", "rejected"], bounds="zero-free byte strings of 254..257, 509..511 bytes whose block codes are 253..255")
job("C10", "packets.cc", "mc_tamper", quick=[[12]], thorough=[[24]], reach=["accepted", "rejected"], bounds="byte strings of at most p0 bytes, all keys; " + UFH)
job("C10", "packets.cc", "mc_change", quick=[[3]], thorough=[[8]], bounds="packets of at most p0 bytes, any change of one byte, any other key; " + UFH)
job("C12", "packets.cc", "sl_roundtrip", quick=[[2, 1]], thorough=[[3, 1]], bounds="p0 packets of at most p1 bytes; zeros possible in the first and last tag byte; " + UFH)
job("C12", "packets.cc", "sl_arbitrary", quick=[[11]], thorough=[[13]], reach=["accepted", "rejected"], bounds="any zero-free frame of at most p0 bytes; " + UFH)
job("C12", "packets.cc", "sl_damage", quick=[[2]], thorough=[[3]], bounds="packets of at most p0 bytes, one byte changed, dropped or doubled; " + UFH)
job("C12", "packets.cc", "sl_limit", bounds="maximum frame sizes 0, 10, 12 with frames one below, at and one above; " + UFH)
job("C12", "packets.cc", "sl_cut", quick=[[2]], thorough=[[4]], bounds="packets of at most p0 bytes, every truncation; " + UFH)
job("C13", "packets.cc", "ps_roundtrip", quick=[[2, 3]], thorough=[[3, 5]], bounds="p0 packets of at most p1 bytes or of 127/130 bytes, truncation of the last 1..5 bytes, both byte orders")
job("C04", "packets.cc", "pk_bytes", quick=[[9]], thorough=[[11]], reach=["accepted", "rejected"], bounds="byte strings of at most p0 bytes through both packet codecs and both protocols; " + UFH)

FL = "arbitrary sorted contents of at most p0 elements (arbitrary keys and values), one operation with arbitrary arguments and positions"
for p, ks in (("C14", "set map".split()), ("C15", "mset mmap".split())):
    for k in ks:
        job(p, "flat.cc", "fs_" + k, quick=[[3]], thorough=[[4]], bounds=FL)
        job(p, "flat.cc", "fb_" + k, quick=[[3]], thorough=[[4]], bounds="construction from at most p0 arbitrary elements in any order")
        job(p, "flat.cc", "fg_" + k, quick=[[20]], thorough=[[40]], bounds="p0 elements with four key patterns, all values, one arbitrary key")
    job(p, "flat.cc", "fo_" + ks[1], quick=[[2]], thorough=[[3]], bounds="p0 move-only elements with arbitrary keys and values")
for k in "set map mset mmap".split():
    job("C16", "flat.cc", "ft_" + k, quick=[[2]], thorough=[[2]], bounds="containers of at most p0 elements before the operation, either ordering rule on each side")

job("C22", "address.cc", "ad_value", bounds="all settings, all bytes of addresses of 0, 2, 16, 28, 110 and 128 bytes; five histories of copies, moves, destruction and vector growth")
job("C22", "address.cc", "ad_list", quick=[[3]], thorough=[[5]], bounds="lists of at most p0 results with arbitrary contents; freeaddrinfo replaced by a recording stand-in")
job("C22", "address.cc", "ad_string", bounds="any host text of at most 4 and port of at most 3 characters, four results; getnameinfo replaced by a stand-in")
job("C22", "address.cc", "ad_endpoint", quick=[[2]], thorough=[[3]], bounds="p0 setter calls, names of at most 2 arbitrary bytes, five ports")

job("C17", "misc.cc", "rh_roundtrip", quick=[[1]], thorough=[[2]], bounds="strings of at most p0 bytes, every error class and message")
job("C17", "misc.cc", "rh_long", bounds="messages and values of 20..49 and 300 bytes, one of them arbitrary, every error class")
job("C17", "misc.cc", "rh_cross", bounds="every error class, all values, messages of at most 2 bytes")
job("C17", "misc.cc", "rh_names", bounds="every error class, all values, messages of at most 2 bytes")
job("C17", "misc.cc", "rh_ctor", bounds="every error class, all values, messages of at most 2 bytes")
job("C18", "misc.cc", "ec_code", bounds="codes within 12000 of 0 and within 130 of every power of ten from 1e5 to INT_MAX, both signs, texts of at most 2 bytes")
job("C18", "misc.cc", "ec_class", bounds="every int error code")
job("C18", "misc.cc", "ec_template", bounds="codes -200..199, texts of at most 3 bytes")
job("C18", "misc.cc", "ec_analyze", bounds="every error class and foreign exceptions, messages of at most 3 bytes")
job("C18", "misc.cc", "ec_names", bounds="class names one edit away from every registered one, and arbitrary ones of at most 3 bytes")
job("C19", "misc.cc", "st_out", quick=[[3]], thorough=[[4]], bounds="p0 operations of at most 3 arbitrary bytes")
job("C19", "misc.cc", "st_in", quick=[[2]], thorough=[[3]], bounds="p0 operations of any length on strings of at most 3 arbitrary bytes")
job("C21", "misc.cc", "io_in", quick=[[2]], thorough=[[3]], bounds="p0 operations over a source that gives any number of bytes, fails or ends")
job("C21", "misc.cc", "io_pieces", quick=[[2]], thorough=[[3]], reach=["end", "filled"], bounds="p0 full or single reads from a source of at most 4 arbitrary bytes that gives them in pieces of any size, or nothing for a while")
job("C21", "misc.cc", "io_out", quick=[[2]], thorough=[[3]], bounds="p0 operations over a sink that takes or refuses bytes")

for e in "small big".split():
    job("C23", "enums.cc", "en_" + e, reach=["named", "fallback"], bounds="every value of the underlying type, for 31 enumerations of 1..256 entries over all integer types")

for e in "istream ostream".split():
    job("C20", "streams.cc", "io_" + e, quick=[[2, 3]] if e == "istream" else [[3]], thorough=[[3, 3]] if e == "istream" else [[4]], bounds="p0 operations of at most 5 bytes (output: 3), stream contents of at most 3 bytes, the buffer ends, rejects or throws at any position, any initial stream state")

job("C08", "typehash.cc", "vr_word", reach=["accepted", "refused"], bounds="19 types, all values with at most one element, every 32-bit hash on the wire, both byte orders")
job("C08", "typehash.cc", "vr_cross", bounds="all 361 ordered pairs of 19 types, all values with at most one element, arbitrary previous target values")
job("C08", "typehash.cc", "vr_stream", bounds="three verified values in a row, any of them read as another type")
job("C24", "typehash.cc", "th_matrix", bounds="all pairs of about 150 types in about 110 groups of interchangeable ones")
job("C24", "typehash.cc", "th_version", bounds="all pairs of about 40 further types, and class versions")
for e in "add leaf".split():
    job("C24", "typehash.cc", "th_" + e, bounds="all 32-bit component hashes, combinations of 1, 2, 3 and 6 components; sizes below 2^24")

job("C26", "registry.cc", "rg_names", quick=[[3, 1], [2, 2]], thorough=[[4, 1], [3, 2]], reach=["known", "unknown"], bounds="p0 registrations of any of five classes under arbitrary names of at most p1 bytes, any name looked up")
job("C26", "registry.cc", "rg_codecs", quick=[[1]], thorough=[[2]], bounds="one encoder, decoder or subclass registry used directly: three registrations (subclasses: two) under arbitrary names of at most p0 bytes, any name looked up")
job("C26", "registry.cc", "rg_many", bounds="eight fixed names and one arbitrary name of at most 3 bytes registered at any point between them")
job("C26", "registry.cc", "rg_errors", quick=[[1]], thorough=[[2]], bounds="two error classes under arbitrary names of at most p0 bytes, or one byte off a library name, next to the library's own, any name looked up")

T = "threads: %s; preemptions at most %s; spurious wakeups at most %s; scheduling at every mutex, condition and atomic operation"
for e, q, t in [("ul_users", [[5, 1, 1], [3, 1, 2]], [[30, 2, 1], [4, 1, 2]]), ("ul_release", [[5, 1, 1], [3, 1, 2]], [[30, 2, 1], [5, 1, 2]]), ("ul_rearm", [[3, 1]], [[4, 1]]), ("ul_arm", [[5, 1]], [[30, 2]]), ("ul_blocks", [[5]], [[30]])]:
    job("C25", "usage.cc", e, q, t, reach=[], bounds=T % ("2 or 3", "param 0", "param 1"))
job("C25", "usage.cc", "ul_histories", [[6]], [[8]], reach=["arm", "get", "refused", "drop"], bounds="histories of 6 (thorough 8) operations, 2 objects, 2 held references")

KM = "; kernel: the model of rt/posix.cpp, virtual time passes when every thread waits"
job("C28", "prims.cc", "fl_histories", [[4]], [[6]], reach=["set", "clear"], bounds="histories of p0 operations" + KM)
job("C28", "prims.cc", "mx_histories", [[4]], [[5]], reach=["held", "free"], bounds="histories of p0 operations" + KM)
for e, q, t, r in [("fl_wake", [[2, 1], [1, 2]], [[3, 1], [2, 2]], ["pulsed", "set once"]), ("fl_change", [[3, 1], [2, 2]], [[4, 2]], ["set", "clear"]),
                   ("mx_exclusion", [[2, 2], [1, 3]], [[3, 2], [2, 3]], ["all"]), ("mx_cancel", [[2]], [[4]], ["interrupted"])]:
    job("C28", "prims.cc", e, q, t, reach=r, bounds=T % ("2 or 3", "p0", "0") + " and system call" + KM)
HARNESS["select.cc"] = {"repo": ASYNC, "threads": True, "kernel": True}
job("C27", "select.cc", "sel_first", [[8]], [[15]], reach=["descriptor", "timer"], bounds="two descriptors and two timers, each never or at any time below 2^p0 ms" + KM)
job("C27", "select.cc", "sel_ends", reach=["ready", "timer"], bounds="reading or writing; data, the other end closed, or both, at any time below 256 ms" + KM)
job("C27", "select.cc", "sel_retry", [[5]], [[10]], reach=["one", "two"], bounds="up to two spurious wake-ups and one timer at any times below 2^p0 ms" + KM)
job("C27", "select.cc", "sel_stuck", [[4]], [[7]], reach=["timer", "descriptor"], bounds="timers of less than p0 ms, a descriptor ready for ever or until its reaction was run 1..3 times, each time taking 0.3 to 1.7 ms" + KM)
job("C27", "select.cc", "sel_polling", reach=["done"], bounds="intervals 1..4 ms, condition true from any time below 20 ms" + KM)
job("C27", "select.cc", "sel_vector", [[3]], [[4]], reach=["some", "none"], bounds="vectors of p0 awaitables, each ready or not, value or error, before or after other awaitables" + KM)
job("C27", "select.cc", "sel_cancel", [[6]], [[12]], reach=["completed", "cancelled", "expired"], bounds="ready, cancellation and deadline times below 2^p0 ms, own or outer context" + KM)
job("C27", "select.cc", "sel_long", reach=["ready", "expired"], bounds="timeouts and ready times up to 6e9 ms" + KM)
job("C27", "select.cc", "sel_signal", [[1]], [[2]], reach=["interrupted", "undisturbed"], bounds="p0 signals at any waits, times below 64 ms" + KM)

HARNESS["queues.cc"] = {"repo": ASYNC, "threads": True, "kernel": True}
for e in "plain move tokens".split():
    job("C29", "queues.cc", "q_" + e, [[3]], [[4]], reach=["left over", "empty"], bounds="histories of p0 operations, capacities 0..2 and unlimited, all values" + KM)
for e in ["q_filled", "q_filled_tokens"]:
    job("C29", "queues.cc", e, [[3, 5]], [[4, 6]], reach=["left over", "empty"], bounds="p0 operations on a queue of capacity 3..p1 filled to any level, all values" + KM)
for e, q, t, r in [("q_threads", [[1, 2], [2, 1]], [[2, 2], [1, 3]], ["done"]), ("q_many", [[1]], [[2]], ["first", "second"]), ("q_semaphore", [[1]], [[2]], ["one", "two"]), ("q_cancel", [[2]], [[3]], ["interrupted"])]:
    job("C29", "queues.cc", e, q, t, reach=r, bounds=T % ("2 or 3", "p0", "0") + " and system call" + KM)

HARNESS["futures.cc"] = {"repo": ASYNC + ["future.cpp"], "threads": True, "kernel": True}
for e in "plain move void".split():
    job("C30", "futures.cc", "fu_" + e, reach=["value", "error", "broken", "dropped"], bounds="every way to resolve, move, wait for and drop, all values" + KM)
job("C30", "futures.cc", "fu_release", bounds="all orders of taking, resolving and destroying")
job("C30", "futures.cc", "fu_again", bounds="value and void futures, set before or while waiting" + KM)
for e, q, t, r in [("fu_threads", [[2]], [[4]], ["got", "dropped"]), ("fu_cancel", [[2]], [[3]], ["got", "interrupted"])]:
    job("C30", "futures.cc", e, q, t, reach=r, bounds=T % ("2", "p0", "0") + " and system call" + KM)
for e in "awaitable future".split():
    job("C37", "futures.cc", "cp_" + e, [[2]], [[3]], reach=["value", "error"], bounds="chains of p0 stages of 5 kinds, each failing in any of 3 ways or not, all values" + KM)
job("C37", "futures.cc", "cp_sources", [[1]], [[2]], reach=["ready", "timeout"], bounds="nine sources, chains of at most p0 stages of 4 kinds, ready or not within 3 ms" + KM)
job("C37", "futures.cc", "cp_types", reach=["value", "failed"], bounds="two fixed chains through void, copyable and move-only values, failing at any stage")

HARNESS["contexts.cc"] = {"repo": ASYNC + ["mutex.cpp"] + [f for f in CORE if f not in ASYNC], "threads": True, "kernel": True}
job("C31", "contexts.cc", "cx_tree", [[3, 3]], [[4, 4]], reach=["cancelled", "alive"], bounds="trees of at most p0 contexts and shields, p1 operations, all deadlines and values" + KM)
job("C31", "contexts.cc", "cx_current", [[3]], [[4]], bounds="nesting of at most p0 contexts" + KM)
job("C31", "contexts.cc", "cx_data", [[3]], [[4]], reach=["set", "default"], bounds="p0 operations on two classes of data, all values")
job("C31", "contexts.cc", "cx_wire", reach=["deadline", "none"], bounds="all deadlines within 24 days, every combination of data, cancellation and the receiver's own" + KM)
job("C31", "contexts.cc", "cx_bytes", [[2]], [[3]], reach=["loaded", "refused"], bounds="at most p0 data entries: null, any id, known and arbitrary class names of at most 2 bytes, any contents, any of the last 3 bytes missing")
job("C31", "contexts.cc", "cx_times", reach=["farthest", "exact"], bounds="every 64-bit time left and absolute deadline, at any time within 49 days of the start")
for e, q, t, r in [("cx_threads", [[2, 1]], [[4, 1]], ["waited", "idle"]), ("cx_race", [[2]], [[3]], ["cancel", "deadline", "data"])]:
    job("C31", "contexts.cc", e, q, t, reach=r, bounds=T % ("2", "p0", "p1 or 0") + " and system call" + KM)

HARNESS["channels.cc"] = {"repo": ASYNC + ["future.cpp", "file.cpp", "socket.cpp", "address_resolver.cpp"], "threads": True, "kernel": True}
job("C33", "channels.cc", "ch_own", [[3], [3, 1]], [[4], [4, 1]], reach=["open", "none"], bounds="histories of p0 operations on three channels; descriptors start at 1000 or (p1) at 0" + KM)
job("C33", "channels.cc", "ch_stream", [[3, 3]], [[4, 3]], reach=["ended", "open"], bounds="histories of p0 operations of at most 3 bytes on a pipe or socket pair of p1 bytes, one short transfer and one failure, all contents" + KM)
job("C33", "channels.cc", "ch_threads", [[1, 4]], [[3, 5]], bounds="p1 bytes through a pipe of 2, chunks of 1..3 bytes; " + T % ("2", "p0", "0") + " and system call" + KM)
job("C33", "channels.cc", "ch_cancel", [[6]], [[12]], reach=["completed", "cancelled", "expired"], bounds="ready, cancellation and deadline times below 2^p0 ms" + KM)
job("C33", "channels.cc", "ch_broken", bounds="pipes and socket pairs" + KM)
job("C33", "channels.cc", "ch_modes", bounds="three changes on a file, pipe or socket and its duplicate" + KM)
job("C33", "channels.cc", "ch_options", bounds="two option calls with any value, flushes between them" + KM)
job("C33", "channels.cc", "ch_connect", reach=["connected", "failed", "cancelled"], bounds="immediate, delayed and refused connections" + KM)
job("C33", "channels.cc", "ch_peers", [[2]], [[3]], bounds="p0 peers with addresses of 2, 16, 28 and 32 bytes" + KM)
job("C33", "channels.cc", "ch_bind", bounds="both families, failing or not" + KM)
job("C38", "channels.cc", "fi_modes", reach=["opened", "created", "missing"], bounds="six modes, files of at most 3 arbitrary bytes or none" + KM)
RES = "; getaddrinfo replaced by a stand-in"
job("C38", "channels.cc", "di_dial", [[2]], [[3]], reach=["connected", "failed", "cancelled"], bounds="at most p0 addresses, each answering or not" + RES + KM)
job("C38", "channels.cc", "di_deadline", reach=["first", "later", "none"], bounds="at most three addresses, each answering or silent, all deadlines of 3..4095 ms" + RES + KM)
job("C38", "channels.cc", "li_accept", [[2, 2]], [[2, 3]], reach=["all", "aborted"], bounds="p0 addresses, p1 peers, one aborted connection" + RES + KM)
job("C38", "channels.cc", "rs_resolve", [[0, 2, 1], [1, 1, 0]], [[0, 2, 1], [1, 1, 1], [2, 1, 0]], bounds="p1+1 requests, each answered or not; " + T % ("3", "p0", "0") + RES + KM)

HARNESS["executor.cc"] = {"repo": ASYNC + ["future.cpp", "executor.cpp"], "threads": True, "kernel": True}
for e, q, t, r in [("tp_runs", [[1, 1, 2]], [[2, 1, 2], [1, 2, 3]], ["done"]), ("tp_submit", [[1, 1, 1]], [[2, 1, 1], [1, 1, 2]], ["done"]), ("tp_destroy", [[1, 1, 2]], [[2, 1, 2], [1, 2, 3]], ["ran", "dropped"])]:
    job("C32", "executor.cc", e, q, t, reach=r, bounds="p1 workers, p2 tasks per submitter, unlimited, equal and single-entry queues; " + T % ("2 or 3", "p0", "0") + " and system call" + KM)
job("C32", "executor.cc", "tp_parallel", bounds="1 or 2 workers, three tasks, no preemption" + KM)
job("C32", "executor.cc", "tp_full", reach=["accepted", "refused"], bounds="one worker, a queue of one, all times below 1024 ms" + KM)
job("C32", "executor.cc", "tp_sizes", [[0, 5]], [[0, 7]], bounds="1 or 2 workers, queues unlimited, as large as the workers, of 1 and of 2, p1 tasks of equal length, no preemption" + KM)
job("C32", "executor.cc", "th_contexts", [[1]], [[2]], reach=["interrupted", "ended"], bounds=T % ("2", "p0", "0") + " and system call" + KM)
job("C32", "executor.cc", "se_runs", bounds="one task")

HARNESS["connections.cc"] = {"repo": ASYNC + ["future.cpp", "file.cpp", "socket.cpp", "address_resolver.cpp", "connection.cpp", "io_adapters.cpp", "string_adapters.cpp", "packet_codecs.cpp", "highway_hash.cpp"], "threads": True, "kernel": True}
job("C34", "connections.cc", "cn_read", [[2]], [[3]], reach=["data", "end", "error"], bounds="p0 reads of at most 3 bytes, at most 5 arbitrary bytes sent, early or late, one short transfer and one failure" + KM)
job("C34", "connections.cc", "cn_write", [[2]], [[3]], bounds="at most 5 arbitrary bytes through 2, one short transfer; " + T % ("2", "p0", "0") + " and system call" + KM)
job("C34", "connections.cc", "cn_interrupt", [[2, 0], [1, 1]], [[3, 0], [2, 1]], reach=["interrupted", "any"], bounds="a blocked reader or writer, one or (p1) two threads disconnecting; " + T % ("2 or 3", "p0", "0") + " and system call" + KM)
job("C34", "connections.cc", "cn_cancel", reach=["late", "done"], bounds="deadline and data at any times below 4096 ms" + KM)
job("C34", "connections.cc", "rc_histories", [[4]], [[5]], reach=["up", "down"], bounds="histories of p0 operations, all arguments" + KM)
job("C34", "connections.cc", "rc_threads", [[2]], [[3]], bounds=T % ("2 or 3", "p0", "0") + " and system call" + KM)
job("C34", "connections.cc", "rc_kept", [[1]], [[2]], bounds=T % ("2", "p0", "0") + " and system call" + KM)
job("C34", "connections.cc", "pc_stream", [[1, 2]], [[2, 2]], bounds="p1 packets of at most 2 bytes; " + T % ("2", "p0", "0") + " and system call" + KM)
job("C34", "connections.cc", "pc_line", [[0, 2]], [[1, 2]], bounds="p1 packets of at most 2 fixed bytes, real keyed hash; " + T % ("2", "p0", "0") + " and system call" + KM)
job("C34", "connections.cc", "cd_device", reach=["opened", "missing"], bounds="files of two arbitrary bytes or none" + KM)

RPC = ASYNC + [f for f in CORE if f not in ASYNC] + ["future.cpp", "executor.cpp", "mutex.cpp", "file.cpp", "socket.cpp", "address_resolver.cpp", "connection.cpp"]
HARNESS["server.cc"] = {"repo": RPC, "threads": True, "kernel": True}
HARNESS["client.cc"] = HARNESS["server.cc"]
DL = "; delays (choices other than the next thread when one blocks) at most %s"
job("C35", "client.cc", "c_encoding", [[0, 0]], [[1, 0]], reach=["value", "error"], bounds="one call of each method: all arguments, results and limits below 4096 ms, texts of at most 2 bytes" + DL % "p0" + KM)
job("C35", "client.cc", "c_calls", [[0, 0, 2], [1, 0, 2], [0, 1, 1]], [[2, 0, 2], [0, 1, 2], [0, 0, 3]], bounds="p2 calling threads, any order of responses, unknown and repeated ids; preemptions at most p1" + DL % "p0" + KM)
job("C35", "client.cc", "c_times", [[0, 0]], [[1, 0]], reach=["limit", "deadline", "cancelled", "answered"], bounds="all times below 500 ms, another call or none" + DL % "p0" + KM)
job("C35", "client.cc", "c_eager", [[2, 0, 2], [0, 1, 2]], [[3, 0, 3], [1, 1, 2], [0, 2, 2]], bounds="p2 calls one after the other, answered at once; preemptions at most p1" + DL % "p0" + KM)
job("C35", "client.cc", "c_limits", [[0, 0, 0], [0, 0, 1], [0, 0, 4]], [[1, 0, 0], [0, 0, 3], [0, 0, 6]], bounds="two pending calls, all limits below 500 ms, by options or context, one answered or not" + DL % "p0" + KM)
job("C35", "client.cc", "c_lost", [[0, 0, 2], [1, 0, 1], [0, 1, 1]], [[1, 0, 2], [1, 1, 1], [0, 1, 2]], bounds="p2 pending calls, four ways to lose the connection; preemptions at most p1" + DL % "p0" + KM)
job("C35", "client.cc", "c_refused", [[0, 1]], [[1, 1]], bounds="preemptions at most p1" + DL % "p0" + KM)
job("C35", "client.cc", "c_destroy", [[1, 0, 2], [0, 1, 0]], [[2, 0, 2], [0, 1, 1]], bounds="p2 pending calls; preemptions at most p1" + DL % "p0" + KM)
job("C36", "server.cc", "sv_dispatch", [[0]], [[1]], reach=["result", "error", "refused", "done"], bounds="one request: all ids and arguments, texts of at most 2 bytes, unknown object, method or signature, missing arguments" + DL % "p0" + KM)
job("C36", "server.cc", "sv_many", [[1, 2]], [[2, 3]], bounds="p1 requests over two connections, 1 or 2 workers" + DL % "p0" + KM)
job("C36", "server.cc", "sv_cancel", [[0]], [[1]], reach=["cancelled", "expired", "completed"], bounds="all times below 1000 ms" + DL % "p0" + KM)
job("C36", "server.cc", "sv_broken", [[0, 1, 0, 0, 0], [0, 1, 0, 0, 1], [0, 1, 0, 0, 2], [0, 1, 0, 0, 3], [1, 0, 0, 1, 4]], [[1, 1, 0, 0, 0], [1, 1, 0, 0, 1], [1, 1, 0, 0, 2], [1, 1, 0, 0, 3], [1, 0, 1, 1, 4], [0, 2, 0, 0, 3]], bounds="four ways to break, p2+1 workers; preemptions at most p1" + DL % "p0" + KM)
job("C36", "server.cc", "sv_stop", [[2, 0, 8], [0, 1, 1], [0, 1, 2], [0, 1, 3], [0, 1, 7]], [[1, 1, b] for b in range(8)] + [[0, 2, 2]], reach=["again", "stopped"], bounds="preemptions at most p1" + DL % "p0" + KM)
job("C36", "server.cc", "sv_objects", [[0, 3]], [[0, 4]], bounds="histories of p1 operations on two names and two objects" + KM)
job("C36", "server.cc", "sv_load", [[1, 2]], [[1, 3]], bounds="p1 connections, one worker, a queue of one" + DL % "p0" + KM)
job("C36", "server.cc", "sv_producer", [[0, 3]], [[1, 4]], reach=["restarted", "done"], bounds="histories of p1 operations, at most two connections, the first three attempts failing in any combination" + DL % "p0" + KM)
