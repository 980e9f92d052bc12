"""Which harnesses decide which property, and the text of each property.

properties.jsonl and MANIFEST.json are generated from this table by tools/gen.py.
"""
PH = "include/gtl/phmap.hpp"
BT = "include/gtl/btree.hpp"
VE = "include/gtl/vector.hpp"
BV = "include/gtl/bit_vector.hpp"
PAR = ["fms1", "fmm0", "nms2", "nmm1", "fss0", "nsm1", "fm4"]
PAR_TUS = ["h_par_fms", "h_par_fmm", "h_par_nms", "h_par_nmm", "h_par_fss", "h_par_nsm", "h_par_fm4"]
SH = ["fm", "fs", "nm", "ns", "pfm", "pns"]
SHA = ["afm", "afs", "anm", "ans", "apf", "apn"]


def par(i):
    f = i in (3, 4)     # also with a mutex whose acquisition can fail
    return dict(tus=PAR_TUS + ["h_par_fmt"] * f, harnesses=["par%d_%s" % (i, n) for n in PAR + ["fmt1"] * f])
def sh(i, names): return dict(tus=["h_sh_" + n for n in names], harnesses=["hash%d_%s" % (i, n) for n in names])

def bt(i, extra=()):
    names = ["m", "s", "mm", "ms", "im", "s3", "st", "sg", "ig", "u8"] + ["dm", "dms"] * (i != 1) + list(extra)
    return dict(tus=["h_bt_" + n for n in names], harnesses=["bt%d_%s" % (i, n) for n in names])


def vec(i):
    names = ["o", "i", "b", "c", "a", "p", "ai", "t"]
    return dict(tus=["h_vec_" + n for n in names], harnesses=["vec%d_%s" % (i, n) for n in names])


def P(title, statement, over, text, why, files, mech, observe, note, **kw):
    d = dict(title=title, statement=statement, over=over, qtext=text, why=why, files=files, mech=mech, observe=observe, note=note)
    d.update(kw)
    return d


ASSUME_HASH = ["element moves, hash, equality and comparison do not throw", "a reference into a container is not passed as argument to an insertion into that same container"]
NOTE_PAR = ("Seeded sampling of schedules and faults over the real parallel containers with std::mutex and std::shared_mutex semantics simulated; sequentially consistent interleavings plus a vector-clock race detector, "
            "2-4 threads, few keys, short histories. A clean run is evidence, not proof. Trusted: the simulator runtime, clang's instrumentation, the lock model.")
NOTE_SEQ = ("Seeded sampling of operation histories with injected allocation, constructor and callback failures over the real containers, each step compared with a small reference model, every heap access checked against a shadow heap. "
            "Evidence, not proof; bounded history length and key range.")

PROPS = {
    "C01": P("Concurrent keyed operations on a parallel container are linearizable",
        "When several threads use a parallel hash map or set whose mutex type is a real lock, every keyed operation (insert, emplace, try_emplace, insert_or_assign, erase, erase_if, contains, count, if_contains, modify_if, try_emplace_l, lazy_emplace_l, extract, ...) takes effect atomically at one point between its call and its return. "
        "The results all threads observe, and the final contents, are those of some sequential order of the operations respecting real time. No data race, use of freed memory or leak occurs in any interleaving, also when the table of a submap grows meanwhile.",
        ["schedules", "histories", "fault_sequences"], "all interleavings of 2-4 threads at every memory access and lock operation, over generated operation mixes, submap counts and hash distributions",
        "the tests start a few threads on one machine and check totals; they reach a handful of schedules and never assert per-operation results under contention",
        [PH], [{"name": "per-submap lock held for the whole keyed operation", "where": PH + " parallel_hash_set: UniqueLock/SharedLock/ReadWriteLock around sets_[subidx(hash)]"}],
        ["return values and callback arguments of each call", "final iteration after joining"], NOTE_PAR, **par(0)),
    "C02": P("Parallel container callbacks run once, isolated, on the live value",
        "A user callback given to an operation of a parallel container (if_contains, modify_if, erase_if, try_emplace_l, lazy_emplace_l, emplace_single, for_each, for_each_m, with_submap, with_submap_m) is called exactly when the operation's contract says so, exactly once, with the element currently stored. "
        "While a modifying callback runs no other thread can read, change or remove that element, and while a reading callback runs no other thread can change or remove it. Changes a callback makes are seen by every later operation on the key.",
        ["schedules", "histories", "fault_sequences"], "all interleavings of threads whose callbacks are preempted at arbitrary points, including multi-step read-modify-write callbacks",
        "tests never preempt a callback in the middle of a multi-step update, so an operation that calls back without the right lock passes",
        [PH], [{"name": "callback invoked under the submap's exclusive or shared lock", "where": PH + " parallel_hash_set/parallel_hash_map *_l, modify_if, if_contains, erase_if, for_each*"}],
        ["values seen and written by callbacks", "overlap of callback intervals on one key"], NOTE_PAR, **par(1)),
    "C03": P("Whole-container parallel operations are complete and per-submap atomic",
        "Operations over a whole parallel container (clear, rehash, reserve, swap, merge, comparison, for_each, for_each_m, with_submap) interleaved with keyed operations by other threads act on each submap in one atomic step: every element present in a submap throughout is visited, compared, moved or removed exactly once. "
        "No element is lost, duplicated or moved to a container that did not receive it.",
        ["schedules", "histories"], "all interleavings of whole-container operations with keyed operations of other threads",
        "no test runs a whole-container operation while other threads mutate the container",
        [PH], [{"name": "each submap visited under its own lock; two-container operations lock both", "where": PH + " parallel_hash_set::clear/rehash/swap/merge/for_each/with_submap, ReadLocks, WriteLocks"}],
        ["visited keys", "contents of both containers after joining"], NOTE_PAR, **par(2)),
    "C04": P("Parallel container operations make progress and release their locks",
        "No combination of operations on one or more parallel containers by several threads deadlocks: swap, merge and comparison in opposite directions, comparison or swap of a container with itself, lock upgrades by concurrent erasers, and callbacks that throw all finish once they are scheduled fairly. "
        "After every operation returns or throws, the calling thread holds none of the container's locks, and a lock is only ever released by the thread and in the mode that acquired it.",
        ["schedules", "fault_sequences", "histories"], "all interleavings of two-container and self-referential operations and all exits by exception",
        "a deadlock needs two threads at specific points of a multi-lock acquisition; tests use one container and no opposite-direction operations",
        [PH, "include/gtl/gtl_base.hpp"], [{"name": "ordered acquisition of the locks of two submaps; RAII lock guards; upgrade by release and re-check", "where": PH + " LockableImpl, ReadWriteLock, ReadLocks, WriteLocks"}],
        ["waits-for graph of simulated locks", "locks held when an operation ends"], NOTE_PAR, **par(3)),
    "C05": P("A failed operation on a parallel container leaves no trace for other threads",
        "When an allocation, an element constructor or a user callback fails inside an operation on a parallel container while other threads use it, the exception reaches the caller, the container's contents are as if the operation had not happened (single-element operations), and no element, memory or lock is leaked. "
        "All other threads' results stay consistent with a sequential order in which the failed operation does nothing.",
        ["schedules", "fault_sequences", "histories"], "every allocation, constructor and callback position that can fail, in every interleaving with other threads",
        "no test makes an allocation or constructor fail, alone or concurrently",
        [PH], [{"name": "insertion is accounted only after the element is constructed; guards unlock on unwind", "where": PH + " prepare_insert/commit_insert, emplace paths, lock guards"}],
        ["results of other threads", "contents, leaks and locks after the exception"], NOTE_PAR, **par(4)),
    "C28": P("Lock guards own exactly what they report and release it once",
        "The lock guards the containers are built on (unique, shared, read-write, and over two mutexes) hold exactly the lock they report: however threads construct them - locking, deferred, adopting, trying - and lock, unlock, try, move, swap, upgrade and drop them, a guard that owns a lock releases it exactly once and in the mode it was taken, and one that does not never releases anything. "
        "When acquiring a lock fails, no lock stays held that no guard owns. Sections under an exclusive guard exclude all others, sections under shared guards exclude writers, and guards over two mutexes taken in any order do not deadlock.",
        ["schedules", "histories", "fault_sequences"], "all interleavings of 1-3 threads over three mutexes and six guards each, with failing acquisitions at every lock call",
        "no test constructs a guard directly; trying, adopting, moving and failing guards are never run",
        [PH], [{"name": "ownership flags of RAII guards; ordered acquisition of two mutexes", "where": PH + " LockableBaseImpl::WriteLock, ReadLock, ReadWriteLock, WriteLocks, ReadLocks"}],
        ["owns_lock() and mutex() of every guard", "locks each thread really holds after every step"], NOTE_PAR, assumptions=["a thread does not take a mutex it already holds, and blocks on single mutexes in one global order"], tus=["h_guard"], harnesses=["guard"]),
    "C10": P("Hash containers match a reference map over any history, failures included",
        "For any sequence of operations on the flat, node and parallel hash maps and sets - insertion in all its forms, lookup, erasure by key, iterator, range and predicate, rehash, reserve, clear, erase while iterating, heterogeneous keys - with failed operations in between, every result, size, iteration and comparison equals that of a reference map. "
        "Iteration shows each element exactly once, and lookups terminate at every load and with every hash function, also after many insert/erase cycles.",
        ["histories", "inputs", "fault_sequences"], "all operation histories over three containers with failing allocations, constructors and callbacks at arbitrary points, for good and degenerate hash functions",
        "the tests run fixed short scripts per operation with well-behaved allocators; tombstone-heavy, in-place-rehash and post-failure states are not reached",
        [PH], [{"name": "control-byte probing, growth accounting, tombstones, in-place rehash", "where": PH + " raw_hash_set"}],
        ["every return value", "size, iteration and lookup after each step"], NOTE_SEQ, assumptions=ASSUME_HASH, **sh(0, SH + ["hfm", "hpm", "wfm", "wns", "wpf", "xfm", "afm", "apn"])),
    "C29": P("Equal keys are one key under gtl's own hashing, however they are spelt",
        "With the default hash and equality of the hash containers - for strings, wide strings, raw and smart pointers, numbers of every width, enums, pairs, tuples and types with a hash_value - an element is found, counted, visited, updated, extracted and erased under every equal spelling of its key (a string view or literal for a string, a raw pointer for a smart pointer and the reverse, -0.0 for 0.0) and under no other key, after any history, also when some operations failed. "
        "Equal spellings hash alike, and a lookup by another spelling never inserts, copies the key or changes the container.",
        ["inputs", "histories", "fault_sequences"], "all histories over keys of twenty-two container and key type combinations and their alternative spellings, with failing allocations and constructors",
        "the tests look up one or two strings by view in fresh containers; pointers, negative zero, embedded zeroes and spellings after failures are not tried",
        [PH, "include/gtl/phmap_utils.hpp", "include/gtl/phmap_fwd_decl.hpp"], [{"name": "transparent default hash and equality; gtl::Hash and HashState", "where": PH + " HashEq, StringHashEqT; include/gtl/phmap_utils.hpp Hash, HashState"}],
        ["results of every operation by key and by other spelling", "size and iteration after each step"], NOTE_SEQ, assumptions=ASSUME_HASH,
        tus=["h_keys_a", "h_keys_b"], harnesses=["keys_" + n for n in "s sn sp w u un h r bs br sv us i8 u16 i32 u64 f d e q t v".split()]),
    "C11": P("A failed operation on a hash container changes nothing and leaks nothing",
        "If an allocation, an element's constructor or copy, or an emplace callback fails during a single-element operation on any hash container, the container's contents are exactly as before and remain fully usable. "
        "A failed multi-element operation (range insertion, merge) leaves each element whole, in one place, and keeps all earlier elements; a failed copy or assignment leaves the source intact. Every element constructed is destroyed exactly once and every allocation is released to the allocator it came from.",
        ["fault_sequences", "histories"], "every position at which an allocation, constructor or callback can fail in every operation, in every reachable table state",
        "the tests contain no failing allocation and almost no throwing constructor",
        [PH], [{"name": "element constructed before the table accounts for it; copy-and-swap assignment; node and slot guards", "where": PH + " raw_hash_set insertion, copy and resize paths, node_hash_policy"}],
        ["contents after the exception", "live objects and heap blocks at the end"], NOTE_SEQ, assumptions=ASSUME_HASH, **sh(1, SH + ["hns", "wns", "afs", "anm"])),
    "C14": P("References and iterators into hash containers stay valid exactly as promised",
        "In node containers an element never changes its address while it is in a container, whatever operations run - growth, rehash, erasure of others, swap, move, merge between containers, failed operations; in flat containers an address is stable under erasure of other elements, swap and move of the container, and insertions covered by an earlier reserve. "
        "Iterators returned by an operation refer to the element they should, and erasing during iteration visits every element once.",
        ["histories", "fault_sequences", "inputs"], "all histories, including failed operations, with every element's address tracked",
        "tests check pointer stability for one or two fixed sequences",
        [PH], [{"name": "node indirection; reserve capacity computation; erase marks only the erased slot", "where": PH + " node_hash_policy, raw_hash_set::reserve/rehash/erase_meta_only"}],
        ["addresses of all elements before and after every operation"], NOTE_SEQ, assumptions=ASSUME_HASH, **sh(2, SH + ["wfm", "afm", "anm", "ans", "apf"])),
    "C15": P("Copy, move, swap, merge and node transfer conserve elements and memory",
        "Copying, moving, swapping, merging and node extraction/insertion between hash containers transfer exactly the elements they should: the result equals the source, nothing is lost or duplicated, moved-from containers are valid and reusable, and empty unless unequal allocators force the elements to be moved one by one, hash and equality functions with state stay with the elements they placed, and this holds also when the operation fails midway. "
        "With stateful allocators every container uses the allocator that its construction and propagation traits prescribe, and each block is released through an allocator equal to the one that produced it.",
        ["histories", "configurations", "fault_sequences"], "all histories of transfers among three containers and detached nodes, for the propagation-trait combinations and allocator identities, with failures at arbitrary points",
        "the tests transfer once between two fresh containers and use allocators that never fail",
        [PH], [{"name": "allocator-aware copy/move/swap, node handles, merge", "where": PH + " raw_hash_set move_assign/swap/merge/extract, parallel_hash_set equivalents"}],
        ["contents of all containers and nodes", "allocator identity of every block freed"], NOTE_SEQ, assumptions=ASSUME_HASH + ["swap, merge and node insertion between containers with unequal non-propagating allocators are undefined and not exercised", "parallel containers are merged only when their hash functions agree"], **sh(3, SH + SHA + ["hfm", "hns", "hpm"])),
    "C12": P("btree containers match an ordered reference over any history",
        "For any sequence of operations on btree_map, btree_set, btree_multimap and btree_multiset - insertion in all forms with any hint, lookup and bounds, erasure by key, iterator, range and predicate, extraction, node insertion, merge, swap, copy, move, clear - with failed operations in between, every result, bound and comparison equals that of an ordered reference. "
        "Forward and reverse iteration show exactly the stored elements in key order; multi-containers keep equal elements in insertion order when inserted without a hint; iterators returned by erase and insert refer to the right element.",
        ["histories", "inputs", "fault_sequences"], "all operation histories over three containers and detached nodes, for small and default node sizes, with failing allocations and constructors at arbitrary points",
        "the tests use fixed insertion orders; splits, merges and rebalances after arbitrary erase patterns, and states after a failure, are not reached systematically",
        [BT], [{"name": "node split, merge and rebalance; erase and iterator repositioning", "where": BT + " btree, btree_node, btree_iterator"}],
        ["every return value", "forward and reverse iteration, bounds and counts after each step"], NOTE_SEQ, assumptions=ASSUME_HASH, **bt(0)),
    "C13": P("A failed operation on a btree changes nothing and leaks nothing",
        "If an allocation or an element's constructor or copy fails during a single-element insertion into a btree container, the container holds exactly the elements it held before, in order, and remains fully usable. "
        "A failed range insertion or merge keeps each element whole, in one place and in order; a failed copy or assignment leaves the source intact; erasure, lookup, swap, move, extraction and clear never fail. Every element constructed is destroyed exactly once and every node is released once.",
        ["fault_sequences", "histories"], "every position at which an allocation or constructor can fail in every operation, in every reachable tree shape",
        "the tests contain no failing allocation and no throwing constructor in a btree",
        [BT], [{"name": "element constructed before counts change; split nodes allocated before elements move", "where": BT + " emplace_value, internal_emplace, rebalance_or_split, copy"}],
        ["contents after the exception", "live objects and heap blocks at the end"], NOTE_SEQ, assumptions=ASSUME_HASH + ["a failed merge of multi-containers is only required to leave both valid"], **bt(1)),
    "C27": P("Transfers between btrees conserve elements and memory, failures included",
        "Copying, moving, assigning, swapping, merging and moving single nodes between btree containers - also of a container with itself, and for stateful allocators that are equal or not - leaves every element in exactly one place, in order, with nothing lost or duplicated; copies are independent of their source, moved-from containers are empty and usable. "
        "Memory is always released through the allocator it came from, with the size it was requested with, and each container ends up with the allocator its propagation traits prescribe. A transfer that fails for lack of memory or because an element cannot be copied throws, never terminates, and leaves both containers valid.",
        ["histories", "configurations", "fault_sequences"], "all histories of transfers among three containers and detached nodes, for propagation-trait combinations, comparators and allocator identities, with failures at arbitrary points",
        "the tests transfer once between two fresh containers, mostly with std::allocator, and no allocation fails",
        [BT], [{"name": "allocator-aware copy, move and swap; merge; node handles", "where": BT + " btree::operator=, swap, merge, btree_container::extract/insert(node)"}],
        ["contents of all containers and nodes", "allocator identity of every block freed"], NOTE_SEQ, assumptions=ASSUME_HASH + ["swap, merge and node insertion between containers with unequal non-propagating allocators are undefined and not exercised", "the allocator is taken over on move assignment exactly when it is on copy assignment, as the existing tests require"], **bt(2, ["bam", "bas", "bamm", "bams"])),
    "C17": P("gtl::vector matches a reference sequence over any history",
        "For any sequence of operations on gtl::vector - construction, push, emplace and insert of one, several or a range of elements at any position, also of the vector's own elements, erase, resize, assign, reserve, shrink, swap, copy, move and comparison, with failed operations in between - contents, size and every result equal those of a reference sequence (std::vector semantics). "
        "References and iterators before the changed position stay valid while the capacity suffices, capacity promises of reserve hold, growth is geometric, and with stateful allocators each vector uses and releases memory through the allocator its propagation traits prescribe.",
        ["histories", "inputs", "fault_sequences"], "all operation histories over three vectors, for trivially copyable, relocatable, copy-only and throwing element types and stateful allocators, with failures in between",
        "the tests run fixed scripts on int and one class type; self-aliasing arguments, boundary capacities and states after a failure are not covered",
        [VE], [{"name": "grow-and-relocate, in-place open-gap insertion, allocator propagation", "where": VE + " vector, detail_vector::Impl"}],
        ["contents and capacity after each step", "addresses of elements", "allocator identity of every block"], NOTE_SEQ, assumptions=["element moves do not throw where std::vector would also give no guarantee", "sizes beyond max_size are not exercised"], **vec(0)),
    "C23": P("A failed operation on gtl::vector honours its exception guarantee",
        "If an allocation or an element's constructor, copy or assignment fails during push_back, emplace_back, insertion at the end, reserve, resize or shrink_to_fit, the vector is exactly as before; if it fails during an insertion in the middle, the vector stays valid with the elements before the position intact; a failed copy or assignment leaves its source intact and its target valid. "
        "Operations that fit in the capacity never allocate, so they cannot fail for lack of memory; no failure terminates the program, leaks, or destroys an element twice.",
        ["fault_sequences", "histories"], "every position at which an allocation or constructor can fail in every operation, at every size and capacity",
        "the tests contain no failing allocation; exception paths of range insertion and relocation are never run",
        [VE], [{"name": "new storage filled before the old is released; gap repair on unwind", "where": VE + " emplace_back_aux, do_real_insert, assign, resize, reserve"}],
        ["contents after the exception", "live objects and heap blocks"], NOTE_SEQ, **vec(1)),
    "C19": P("bit_vector and bit_view match a reference bit string over any history",
        "For any sequence of operations on gtl::bit_vector and its views - set, reset, flip of bits, ranges and whole vectors, resize, push, shifts, and/or/xor/difference and assignment between views of different vectors or overlapping views of one vector, comparison, count, any/all/none/every, find_first/find_next, contains/intersects, iteration of set bits, copy, move - every result equals that of a reference bit string, for all sizes and offsets relative to the 64-bit slots. "
        "Bits outside a view are never changed, no memory outside the vector is touched, and a failed operation leaves each bit_vector valid.",
        ["histories", "inputs", "fault_sequences"], "all operation histories over several bit_vectors and views with sizes and offsets concentrated at slot boundaries, with failing allocations",
        "the tests try a few sizes and offsets; views straddling slots and partial last slots are where the code branches",
        [BV], [{"name": "slot-wise visitors with masked first and last slots", "where": BV + " vec, view, bit_view storage visitors"}],
        ["every bit after each step", "every query result"], NOTE_SEQ, assumptions=["compound operators between two distinct overlapping views of one vector are not exercised", "indices are within the vector"], tus=["h_bits"], harnesses=["bits"]),
    "C07": P("A concurrent memoizer computes consistent values in every interleaving",
        "When several threads call a gtl::mt_memoize (with a lock, recursive or not, any submap count) every call returns the value the wrapped function gives for its arguments, whatever other threads call, insert, clear or reset meanwhile; calls that find a cached value do not call the function again, and while a non-recursive cache is not cleared the function completes once per distinct arguments. "
        "If the function or an allocation fails, the exception reaches that caller alone, nothing is cached for it and other threads are unaffected. No race, deadlock, leak or use of freed memory occurs.",
        ["schedules", "histories", "fault_sequences"], "all interleavings of calls, contains, clear and recursive computations by 2-4 threads, with functions that throw or run out of memory",
        "the tests call a memoized function from several threads once and compare sums",
        ["include/gtl/memoize.hpp", PH], [{"name": "lookup or compute-and-insert under the submap lock (recursive: compute outside it)", "where": "include/gtl/memoize.hpp mt_memoize"}],
        ["returned values, number of invocations of the wrapped function", "contents and counters after joining"], NOTE_PAR, tus=["h_memo_mt", "listhooks"], harnesses=["cache_memo_m0", "cache_memo_s1", "cache_rmemo_m0", "cache_rmemo_s1"]),
    "C08": P("Concurrent LRU caches are linearizable and bounded",
        "When several threads use a gtl::mt_lru_cache or gtl::mt_memoize_lru, every get, insert, exists and call behaves as one atomic step on a least-recently-used cache: a value found is the one last stored for that key, the number of entries never exceeds the configured limit, and what is evicted is the least recently used entry of its submap. "
        "The list of recency and the table always describe the same entries. A failing function or allocation leaves the cache unchanged and consistent; no race, deadlock, leak or dangling list position occurs.",
        ["schedules", "histories", "fault_sequences"], "all interleavings of get/insert/exists/clear/calls by 2-4 threads around the capacity limit, with failures at arbitrary points",
        "tests of the caches are single-threaded, apart from one that only checks totals",
        ["include/gtl/lru_cache.hpp", "include/gtl/memoize.hpp", PH], [{"name": "list splice and table update under the submap's exclusive lock", "where": "include/gtl/lru_cache.hpp lru_cache_impl, memoize.hpp memoize_lru"}],
        ["results of each call", "which keys remain after joining"], NOTE_PAR, tus=["h_cache_mt", "listhooks"], harnesses=["cache_lru_m0", "cache_lru_s1", "cache_mlru_m0", "cache_mlru_s1"]),
    "C09": P("intrusive_ptr keeps an object alive exactly as long as it is referenced",
        "An object managed by gtl::intrusive_ptr with the thread-safe counter is destroyed exactly once, when the last pointer to it goes away, whatever threads copy, move, assign, swap, cast, detach, adopt and drop pointers to it and in whatever order; everything a thread did to the object before dropping its reference happens before the destructor. "
        "Every pointer refers to what its assignments say, use_count is exact when no other thread is active, copying an object does not copy its count, and failed constructions leak nothing. The same holds single-threaded for the unsafe counter.",
        ["schedules", "histories"], "all interleavings of pointer operations by 2-4 threads sharing nodes, over histories of all operations and casts",
        "the tests are single-threaded and use each operation once",
        ["include/gtl/intrusive.hpp"], [{"name": "atomic reference count with release decrement and acquire before deletion", "where": "include/gtl/intrusive.hpp thread_safe_counter, intrusive_ptr, pointer casts"}],
        ["lifetime of each object", "use_count at quiescence"], NOTE_PAR, tus=["h_intr"], harnesses=["intr_mt", "intr_st", "intr_un"]),
    "C16": P("Dumping and loading a hash container is faithful or reported as failed",
        "A container of trivially copyable elements dumped with phmap_dump and loaded again - flat or parallel, map or set, of any size, load factor and erase history, also from the older format - equals the original and is fully usable. "
        "If a write or read fails, is short, the process stops midway or the file is truncated, the operation reports failure (false or an exception) and never a success with missing data; a failed dump leaves the container untouched, and a failed load leaves the target valid, holding its old contents or none, never a partial or corrupt table. Interrupted calls are retried or reported; parallel dumps of locked containers are consistent per submap.",
        ["histories", "crash_points", "fault_sequences"], "all contents and histories before the dump, every archive call that can fail, be short or be the last before a crash, and every truncation point",
        "the tests dump and load once with a file system that never fails",
        ["include/gtl/phmap_dump.hpp", PH], [{"name": "header, capacity and growth fields written and checked; table replaced only after all reads succeeded", "where": "include/gtl/phmap_dump.hpp; " + PH + " raw_hash_set::phmap_dump/phmap_load"}],
        ["return values", "contents of source and target afterwards", "bytes on the simulated disk"],
        NOTE_SEQ + " Disk: a simulated file whose failing, short, interrupted and post-crash behaviour is the simulator's. Flipped bits inside a complete file are not detectable by the format and not claimed.",
        tus=["h_dump", "iohooks"], harnesses=["dump_fm", "dump_fs", "dump_pm", "dump_ps", "dump_sfm", "dump_spm", "dumpmt"], stubs="archive and file (simulated disk), heap, scheduler for the concurrent case; element types and hash functions are the simulator's"),
    "C18": P("LRU caches and memoizers are exact over any history, failures included",
        "For any sequence of operations on lru_cache, memoize and memoize_lru with failures in between, a memoized call returns what the wrapped function returns for its arguments and calls it only when no cached value exists; an LRU cache holds the most recently used entries within its limit, evicts the least recently used first, refreshes recency on use and returns the value last stored. "
        "When the function throws or memory runs out the exception reaches the caller, nothing is cached for that call, existing entries and their order stay as they were or - if an eviction had to make room - lose only least recently used ones, and nothing leaks.",
        ["histories", "fault_sequences", "inputs"], "all histories of lookups, calls, insertions, clears, resets and limit changes with failures at every allocation, copy and invocation",
        "the tests evict once or twice and never fail an allocation or throw from the function",
        ["include/gtl/lru_cache.hpp", "include/gtl/memoize.hpp"], [{"name": "list order and table kept in step", "where": "include/gtl/lru_cache.hpp insert/get, memoize.hpp memoize_lru::operator(), mt_memoize::operator()"}],
        ["returned values and invocation counts", "set of cached keys and eviction order"], NOTE_SEQ, assumptions=["copying a cache is a known finding (listed in known-findings.jsonl) and not part of the generated histories", "the capacity of memoize_lru is documented as approximate and is measured first"],
        tus=["h_cache_seq", "listhooks"], harnesses=["cache_lru0", "cache_lru1", "cache_mlru0", "cache_mlru1", "cache_memo0", "cache_rmemo0", "cache_rmemo1"]),
    "C06": P("Concurrent reads are safe and distinct objects are independent",
        "Any number of threads may at the same time read one gtl container - lookups, bounds, iteration, comparison, copying from it, bit queries - without any lock and without data races, and each sees exactly its contents. "
        "Threads that each modify their own containers never affect each other or readers of other containers, also when these containers were copied, moved or swapped from one another before.",
        ["schedules", "histories"], "all interleavings of 2-4 threads reading shared containers and modifying private ones, for hash, ordered, sequence and bit containers of arbitrary history",
        "no test reads a non-parallel container from several threads; a hidden mutable cache or shared static buffer passes every single-threaded test",
        [PH, BT, VE, BV], [{"name": "const operations write nothing; no mutable shared state between objects", "where": PH + ", " + BT + ", " + VE + ", " + BV + " const members; shared empty group and empty node"}],
        ["results of every read", "data races on heap and static memory"], NOTE_PAR, tus=["h_const"], harnesses=["const_" + n for n in ("fm", "ns", "pf", "pn", "bm", "bs", "ve", "vi", "bv")]),
    "C20": P("Rows of a soa stay whole under any history, sort and failure",
        "For any sequence of insertions, resizes, writes, sorts, copies, moves and swaps of a gtl::soa, all columns always have the same length and every row consists of the values that belong together; sorting by a field is a stable permutation of whole rows. "
        "If an allocation, an element copy or the comparison fails, the soa is as it was before the operation. Threads that sort different soas at the same time do not affect each other.",
        ["histories", "fault_sequences", "schedules"], "all histories with failures at every allocation, copy and comparison, and all interleavings of threads working on their own soas",
        "there is no test of soa in the suite; a failure between two columns or between two threads' sorts is never exercised",
        ["include/gtl/soa.hpp"], [{"name": "column-wise insertion and resize with roll back; permutation applied to each column in turn with per-thread scratch space", "where": "include/gtl/soa.hpp insert_impl, resize, sort_by_field, reorder"}],
        ["all columns after each step"], NOTE_SEQ, assumptions=["element moves do not throw"], tus=["h_soa"], harnesses=["soa_a", "soa_b", "soa_c", "soa_mt"]),
    "C21": P("Scope guards act exactly once and values are restored, exceptions included",
        "However nested scopes are left - normally or by an exception raised anywhere - a scoped guard runs its action exactly once at the end of its scope unless it was dismissed or disabled, the undo action of a set/unset pair runs exactly if its set action completed, and a scoped value is restored; if setting the new value fails, the variable keeps its old value, and no failure terminates the program. "
        "change() reports exactly whether the value changed, replace() returns the previous value, and every modification gets a timestamp newer than all earlier ones, uniquely, also across threads.",
        ["fault_sequences", "histories", "schedules"], "all nestings of scopes with exceptions at arbitrary points and failing conversions, and all interleavings of threads stamping their own objects",
        "these utilities have no tests",
        ["include/gtl/utils.hpp"], [{"name": "RAII guards with a dismiss flag; new value prepared before the old one is moved; shared atomic stamp counter", "where": "include/gtl/utils.hpp scoped_guard, scoped_set_unset, scoped_set_value, change, replace, timestamp"}],
        ["number and order of action calls", "variable values after each scope", "timestamps"], NOTE_SEQ, assumptions=["an undo action does not throw", "after a failed replace() the variable may have lost its old value, as with std::exchange"], tus=["h_util"], harnesses=["util", "util_mt"]),
    "C22": P("Stopwatches report the time that passed, whatever happens to the clock",
        "A stopwatch reports, in its unit, the time that really passed between start, snap and the query, never a negative or wrong amount because the system time was stepped meanwhile; a start/snap scope takes its snap also when left by an exception, and a stopwatch with a message prints the time from its last start until its end.",
        ["histories", "fault_sequences"], "all sequences of starts, snaps, queries and scopes with arbitrary delays between and during calls and arbitrary steps of the system clock",
        "there are no tests of the stopwatches, and a test cannot step the clock",
        ["include/gtl/stopwatch.hpp"], [{"name": "difference of readings of a steady clock", "where": "include/gtl/stopwatch.hpp stopwatch, basic_stopwatch, start_snap"}],
        ["reported times against simulated time"], NOTE_SEQ, tus=["h_watch"], harnesses=["watch_milli", "watch_micro", "watch_sec", "watch_min"], stubs="clock_gettime (simulated monotonic and wall clocks), heap, std::cout buffer"),
    "C24": P("Memory queries report the system's figures or zero, never garbage",
        "The queries for total, used, physical and process memory return exactly what the operating system reports, scaled to bytes, for every size the system can report; when a system call or file access fails or the figure is missing they return zero, close what they opened, and never crash.",
        ["inputs", "fault_sequences"], "all contents of the system's reports and every failing, short or missing system call and file",
        "there are no tests of these queries, and a test cannot choose the system's figures",
        ["include/gtl/meminfo.hpp"], [{"name": "sysinfo() and /proc/self/status parsing", "where": "include/gtl/meminfo.hpp (Linux branches)"}],
        ["returned figures"], NOTE_SEQ + " Linux branches only.", tus=["h_mem", "memhooks"], harnesses=["mem"], stubs="opening and reading /proc/self/status and sysinfo() (simulated kernel)"),
}

# properties listed but not claimed: id -> (property fields, reason)
NA = {
    "C25": (P("Hash functions and bit utilities compute their mathematical definition",
        "Equal keys hash equal, combining hashes of members depends on every member and their order, and the bit utilities (leading/trailing zeros, population count, rotations, byte order conversions) return their mathematical value for every argument.",
        ["inputs"], "all argument values", "tests sample a few arguments", ["include/gtl/phmap_utils.hpp", "include/gtl/gtl_base.hpp", "include/gtl/bits.hpp"],
        [{"name": "hash mixing and combination; bit intrinsics", "where": "include/gtl/phmap_utils.hpp Hash, HashState; include/gtl/bits.hpp"}], ["returned values"], ""),
        "pure functions of their arguments: no schedule, time, I/O, allocation or history for a simulator to decide, so simulation adds nothing over plain input enumeration"),
    "C26": (P("Search, sequence and function combinators compute their definition",
        "binary_search finds the boundary of a monotone predicate, cat/slice/map build the sequences they describe, and the function combinators apply their arguments in the documented order.",
        ["inputs"], "all argument values", "there are no tests of these helpers", ["include/gtl/adv_utils.hpp", "include/gtl/vec_utils.hpp", "include/gtl/combinators.hpp"],
        [{"name": "pure helper functions", "where": "include/gtl/adv_utils.hpp, vec_utils.hpp, combinators.hpp"}], ["returned values"], ""),
        "pure, stateless, single-threaded helpers with no clock, I/O or shared state: there is nothing for a seeded scheduler or fault injector to vary"),
}
