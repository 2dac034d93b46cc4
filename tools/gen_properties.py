#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["include/lru/" + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": "include/lru/" + c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": "include/lru/" + b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
BC = "internal/base-cache.hpp"; C = "cache.hpp"; T = "timed-cache.hpp"; LA = "internal/last-accessed.hpp"
OI = "internal/base-ordered-iterator.hpp"; UI = "internal/base-unordered-iterator.hpp"; BI = "internal/base-iterator.hpp"

p("C01", "A lookup finds exactly the stored keys and returns the value last stored",
  "After any history of operations on a cache (timed or not, as long as nothing has expired), every access by key - contains, find, lookup and subscript, on const and non-const caches - succeeds exactly for the keys that were inserted and not since erased, cleared or evicted, and yields the value most recently stored under that key by insertion, emplacement or writing through a returned reference or iterator. A failing access reports so (false, end iterator, or a key-not-found error) and changes nothing. Insertion and erasure report truthfully whether the key was new or present, and insertion returns an iterator to the entry of that key.",
  ["histories", "inputs", "configurations"], "Every sequence of cache operations, every key and value, every capacity, both cache kinds.",
  "The tests check a handful of fixed sequences of 2-4 operations, mostly insert followed by one lookup; they never interleave the last-accessed shortcut with erasure, eviction, swaps and re-insertion.",
  [BC, C, T, LA], [("map from keys to entries, consulted by find()", C), ("last-accessed shortcut taken by contains()/lookup()/erase()", BC), ("invalidation of the shortcut on erasure", BC)],
  [("_map", "key -> (value, position in the order)", BC), ("_last_accessed", "pointers to the most recently accessed entry", LA)], ["return values and exceptions of every accessor", "unordered iteration"])
p("C02", "Size never exceeds capacity and eviction removes exactly the LRU entry",
  "The number of entries never exceeds the capacity; inserting a new key into a full cache removes exactly one entry, the least recently used one, and no other operation than insertion of a new key, erasure, clearing, shrinking or lowering the capacity removes entries. Lowering the capacity or shrinking removes entries in least-recently-used order until the requested size is met, and a cache of capacity zero stores nothing. Size, capacity, space left, emptiness and fullness always agree with the stored entries.",
  ["histories", "configurations"], "Every operation sequence, every capacity including 0 and 1 and capacities changed at any point.",
  "The tests evict once with capacity 2 and shrink two or three times; the interplay of eviction with updates, lookups, erasures and capacity changes is not enumerated.",
  [BC], [("insertion of a new key with node re-use when too full", BC), ("_erase_lru loop in capacity() and shrink()", BC)],
  [("_capacity", "current capacity", BC), ("_order", "recency queue, LRU first", BC)], ["size()/capacity()/space_left()/is_full()/is_empty()", "set of stored keys"])
p("C03", "Ordered iteration, front and back report exact recency order",
  "Ordered iteration (forward from the least to the most recently used entry, and backward), front and back always report the entries in order of their last use, where a use is an insertion, an update or any successful lookup (contains, find, lookup, subscript; const or not). Misses, failed operations, erasures of other keys, iteration, dereferencing, comparison and size queries leave the relative order unchanged.",
  ["histories", "configurations"], "Every operation sequence over keys, values and capacities, both cache kinds.",
  "Tests look at the order after one or two lookups; every path that touches an entry (const and non-const, shortcut and non-shortcut, insert, emplace, bulk) has to move it.",
  [BC, C, T], [("splice of the queue node on each use", BC), ("assumption that the last accessed key is already at the front", BC)],
  [("_order", "recency queue", BC)], ["ordered_begin()..ordered_end(), front(), back()"])
p("C04", "A copy equals its original and the two are fully independent afterwards",
  "Copy construction and copy assignment (from const and non-const sources, with any prior contents, including self-assignment) give a cache with the same entries, recency order, capacity and time-to-live, and the same monitoring and callbacks, leaving the source unchanged. Afterwards no operation on either cache, nor its destruction, changes the contents or order of the other or makes it misbehave, except for a statistics object they share.",
  ["histories", "configurations"], "Every history before the copy, every interleaving of operations on the two caches after it, destruction in either order.",
  "The only copy tests compare capacities and an empty copy; no test performs an operation on both caches after copying a filled one.",
  [BC, C, T], [("copy constructor/assignment and re-assignment of the queue's references", BC)],
  [("order", "position of an entry in its cache's queue", "internal/information.hpp"), ("_last_accessed", "pointers into the owning map", LA)], ["full observation of both caches after each operation"])
p("C05", "Move and swap transfer the complete cache state",
  "Moving a cache (construction or assignment) gives the target the source's entries, recency order, capacity, time-to-live, monitoring and callbacks, and swapping exchanges them between the two caches, so that each continues to behave exactly as the other one would have. A moved-from cache can still be assigned, cleared, filled and destroyed, with its size within its capacity.",
  ["histories", "configurations"], "Every history before and after a move or swap, both cache kinds, self-swap and self-move.",
  "One test swaps two one-element caches and one moves an empty cache and reads its capacity; nothing runs on after the transfer.",
  [BC, T], [("swap()", BC), ("move constructor/assignment via swap", BC), ("TimedCache::swap", T)],
  [("_last_accessed", "must travel with the map it points into", LA)], ["full observation of both caches after each operation"])
p("C06", "Iteration visits each entry exactly once, in every iterator flavour",
  "Ordered and unordered iteration, const and non-const, by pre- and post-increment (and decrement for ordered iterators), visit each stored entry exactly once with its key and current value and end at the matching end iterator; writing a value through a mutable iterator is seen by later lookups. An ordered iterator made from an unordered one points to the same entry and continues in recency order; ordered and unordered iterators compare equal exactly if they point to the same entry or both to the end of the same cache, however they were copied, moved, swapped or assigned. Iterating and dereferencing never change the order, the contents or the statistics.",
  ["histories", "inputs"], "Every reachable cache state, every position in it, every short sequence of iterator operations.",
  "Tests walk one fixed cache and compile-check conversions; entry caching inside iterators across assignments, moves, increments and value changes is not explored.",
  [BI, OI, UI, "internal/optional.hpp", "entry.hpp", BC], [("lazily cached entry, reset on movement", BI), ("conversion from unordered to ordered iterators", OI), ("custom optional", "internal/optional.hpp")],
  [("_entry", "cached entry of an iterator", BI)], ["key(), value(), entry(), operator*, operator->, comparisons"])
p("C07", "Iterators stay valid until their own entry is removed",
  "An iterator (ordered or unordered) and a value reference obtained for an entry keep referring to that entry, with its current value, across any further operations that do not remove this very entry: lookups, updates, insertions and evictions, erasures of other keys and capacity changes. The current position of an ordered iterator in the iteration reflects the current recency order, and erasing through any iterator removes exactly the entry it points to.",
  ["histories"], "Every state, every held iterator, every sequence of operations performed while it is held.",
  "Tests never hold an iterator across more than one or two operations.",
  [BC, BI, OI, UI], [("node-based containers and splice", BC), ("erase overloads for iterators", BC)], [], ["held iterators dereferenced after each operation"])
p("C08", "Invalid uses are reported by the documented errors and change nothing",
  "Accessing the entry, key or value of, or erasing, a past-the-end iterator raises the invalid-iterator error, converting a past-the-end unordered iterator to an ordered one raises the conversion error, front and back of an empty cache raise the empty-cache error, and looking up an absent key raises the key-not-found error. Validity queries and throw-if-invalid agree with this for every iterator, and for expired entries report the expired error, while erasing an expired entry through an iterator and plain dereferencing do not throw. A reported error leaves the cache contents, order and capacity unchanged.",
  ["histories", "inputs"], "Every reachable state including empty and fully expired caches, every iterator position, both cache kinds.",
  "Tests check single errors on fresh caches; front()/back() on an empty cache and erasing expired entries are never tested, and nothing checks that errors leave state intact.",
  [BC, C, T, BI, OI, UI, "error.hpp"], [("throw_if_invalid / is_valid overrides", T), ("InvalidIteratorConversion check", OI), ("EmptyCache thrown by front()/back()", C)], [], ["exceptions and state after them"])
p("C09", "An entry is accessible exactly while its age is within the time to live",
  "In a timed cache an entry can be accessed exactly while the time since its key was last inserted or updated, in units of the cache's duration type, does not exceed the time to live; lookups do not prolong its life. All ways of asking agree: contains, find, lookup, subscript, has_expired by key and by iterator, is_valid, throw_if_invalid and checked iterator access; an expired key behaves as absent for lookups until it is inserted again, which makes it accessible for a full time to live. Expired entries still occupy their slot and position until erased, evicted or cleared.",
  ["histories", "inputs", "configurations"], "Every history of operations and clock advances, every time to live including zero and unit boundaries, several duration types.",
  "The tests sleep for real milliseconds in three or four fixed scenarios (and are excluded as flaky); boundaries, re-insertion, const access and the last-accessed shortcut at expiry are out of their reach.",
  [T, "internal/timed-information.hpp", LA, BC], [("_has_expired comparison with the insertion timestamp", T), ("expiry check on the last-accessed shortcut", T)],
  [("insertion_time", "time of last insertion", "internal/timed-information.hpp"), ("_time_to_live", "lifetime of entries", T)], ["all accessors under a virtual clock"])
p("C10", "Expiry clean-up removes exactly the expired entries",
  "clear_expired removes exactly the entries that have expired, wherever they stand in the recency order, keeps all others with their order, values and remaining lifetimes, and returns the number removed. all_expired is true exactly if every stored entry has expired, in particular for an empty cache.",
  ["histories"], "Every history of insertions, updates, lookups and clock advances.",
  "The tests only clean up caches whose entries were never looked up, so recency order and age order always coincide.",
  [T], [("clear_expired scan", T), ("all_expired", T)], [("_order", "ordered by use, not by age", BC)], ["contents before and after, return values"])
p("C11", "Each access takes effect at a single instant, even if time passes during it",
  "If the clock advances while an operation on a timed cache runs, the operation still behaves as if performed entirely at one instant between its start and its end: its result, the hit or miss it records, the callbacks it triggers and its effect on the order all agree with each other. In particular a lookup never records a hit and then fails as expired, nor succeeds while recording a miss.",
  ["schedules", "inputs"], "Every operation from every short history, with the clock advancing by any relevant amount at any of its clock readings.",
  "Tests cannot place an expiry between two clock readings of one call.",
  [T, BC, UI], [("lookup built on find plus checked iterator access", BC), ("expiry check on the shortcut", T)], [], ["results, statistics and callbacks under a stepping clock"])
p("C12", "Statistics count every lookup exactly once as a hit or a miss",
  "While a cache is monitored, each call of contains, find, lookup or subscript counts as exactly one access - a hit if it found an accessible entry, else a miss, also if it fails because of expiry - and no other operation counts as an access. Total accesses always equal hits plus misses, hit and miss rates are the corresponding fractions of the accesses, and for each individually monitored key the counters equal the hits and misses of that key since it was monitored or reset.",
  ["histories"], "Every operation sequence on both cache kinds with monitoring started, changed and stopped at any point.",
  "The tests make one access of each kind on a fixed cache; combinations with the shortcut, expiry, const access, copies and iteration are not covered.",
  ["statistics.hpp", "key-statistics.hpp", "internal/statistics-mutator.hpp", BC, C, T], [("register_hit/register_miss", "internal/statistics-mutator.hpp"), ("_register_hit/_register_miss on every access path", BC)],
  [("_total_accesses/_total_hits/_key_map", "counters", "statistics.hpp")], ["stats() after each operation"])
p("C13", "Statistics objects can be shared, replaced and edited without losing counts",
  "A statistics object given to several caches counts the accesses of all of them together, outlives any of them, and is the very object the caches report; monitoring can be started, replaced and stopped at any time, after which the old object no longer changes, and asking an unmonitored cache for statistics raises the not-monitoring error. Monitoring a key again keeps its counts, unmonitoring forgets them, resetting one or all keys zeroes their counters only and keeps totals and monitoring; queries about unmonitored keys raise the unmonitored-key error.",
  ["histories"], "Every sequence of monitoring calls, key-management calls and accesses on two caches.",
  "The tests share statistics between mutators, never between caches that are used, and never reset anything.",
  ["statistics.hpp", "internal/statistics-mutator.hpp", BC], [("shared_ptr held by each cache", "internal/statistics-mutator.hpp"), ("monitor/unmonitor/reset functions", "statistics.hpp")], [], ["stats(), shared_stats(), statistics getters"])
p("C14", "Callbacks fire once per access, with the right arguments, in order",
  "Each lookup (contains, find, lookup, subscript) that hits calls every registered hit callback once with the key and the stored value and every access callback once with the key and true; each one that misses, also because of expiry, calls every miss callback once with the key and every access callback with false; within each kind callbacks run in the order of registration. Insertion, erasure, iteration and other operations call none, callbacks no longer registered are never called, and the cache reports exactly the registered callbacks.",
  ["histories"], "Every sequence of registrations, clearings and cache operations on both cache kinds.",
  "The tests register one callback per kind and check a few counts; several callbacks, ordering, arguments, expiry and partial clearing are not covered.",
  ["internal/callback-manager.hpp", BC, C, T], [("CallbackManager hit/miss", "internal/callback-manager.hpp"), ("_register_hit/_register_miss", BC)], [], ["log of callback invocations"])
p("C15", "A wrapped function returns what the function returns and calls it only on misses",
  "A function returned by wrap or timed_wrap returns, for any arguments, the value the original function returned for equal arguments, and calls the original exactly when no (unexpired) result for these arguments is cached under the least-recently-used policy with the capacity and time to live given. Distinct wrapped functions never share cached results or capacity, even if they have the same type; a call that throws caches nothing; arguments are passed on unchanged and lvalue arguments are not modified by the wrapper.",
  ["histories", "inputs", "configurations"], "Every sequence of calls with every combination of arguments over several wrapped functions of equal and different types, capacities and clock advances.",
  "The tests call one wrapper a few times; two wrappers of the same type, capacity eviction, exceptions, multiple arguments and expiry are not exercised.",
  ["wrap.hpp", "internal/hash.hpp", "internal/utility.hpp"], [("cache attached to the closure", "wrap.hpp"), ("tuple hashing", "internal/hash.hpp")], [], ["returned values and number of calls of the original"])
p("C16", "An operation that fails by an exception leaves the cache consistent",
  "If memory allocation or an operation of a user-supplied key, value, hash, key equality or callback throws during any cache operation (one declared noexcept aside), the exception reaches the caller and the cache stays consistent: every entry reported by iteration can be looked up and vice versa, the size is within the capacity, and later operations behave normally. A single insertion or emplacement of a new key that fails leaves all entries and their order as they were, no entry is duplicated or leaked, and a failed copy leaves the source (and, for assignment, the target) as it was.",
  ["fault_sequences", "histories"], "Every fault position (each allocation and each user operation) in every operation, from every short history.",
  "No test injects a failure.",
  [BC, C, T, "internal/information.hpp"], [("order of map emplacement, queue insertion and eviction", BC), ("copy assignment", BC)], [], ["state comparison after each injected fault"])
p("C17", "Bulk construction, insertion and assignment equal one-by-one insertion",
  "Constructing, inserting or assigning from an iterator pair, a range, an initializer list or an rvalue range has the same effect as inserting the pairs one by one in order: later duplicates update, a full cache evicts, and the returned count is the number of keys newly inserted. Assignment replaces all previous contents, growing the capacity to the length of the range if needed and never lowering it, and construction without explicit capacity provides room for the whole range. A source passed as an lvalue is left unmodified.",
  ["inputs", "histories", "configurations"], "Every short list of pairs with duplicates, every capacity and every source kind, from every prior state.",
  "The tests use one list without duplicates per constructor, and never look at the source afterwards.",
  [BC, C, T], [("range insert overloads and forwarding constructors", BC), ("_clear_and_increase_capacity", BC)], [], ["resulting cache versus a cache filled one by one; the source after the call"])
p("C18", "Equality compares keys, values and recency order and nothing else",
  "Two untimed caches compare equal exactly if they hold the same keys with equal values in the same recency order, whatever history, capacity, statistics or callbacks they have; timed caches additionally require equal insertion times. Inequality is always the negation, equality is reflexive and symmetric, and comparing changes neither cache.",
  ["histories", "configurations"], "Every pair of reachable cache states.",
  "One test compares three pairs of caches built by the same calls.",
  [BC, "internal/information.hpp", "internal/timed-information.hpp", "internal/definitions.hpp"], [("map comparison plus queue comparison", BC)], [], ["operator== and operator!= over all pairs of states"])
p("C19", "No history accesses freed memory, leaks, or mishandles object lifetimes",
  "No sequence of documented operations on caches, iterators, statistics and wrapped functions reads or writes freed or foreign memory, or has undefined behaviour. Every key and value the cache constructs is destroyed exactly once, immediately when its entry is removed and at the latest with the cache, so that the number of live objects always corresponds to the number of entries.",
  ["histories"], "Every operation sequence up to the bound, including copies, moves, swaps and destruction at any point.",
  "The tests run without sanitizers or lifetime counters and stop after a few operations.",
  [BC, LA, BI, OI, UI, "internal/optional.hpp"], [("raw pointers of the last-accessed shortcut", LA), ("references held by queue and iterators", BC)], [], ["address/UB sanitizer, live-object counters per cache"])
p("C20", "Custom hash and key equality decide key identity everywhere",
  "The cache treats two keys as the same exactly if the given key-equality function says so, in every operation including repeated accesses to the same key, and works correctly with any hash consistent with it, also if all keys collide. The functions given at construction are the ones used and reported, and they stay attached through copies, moves and swaps.",
  ["configurations", "histories", "inputs"], "Every operation sequence under several hash functions and equivalences, including stateful ones.",
  "Two tests count calls of a mock function on a one-element cache.",
  [BC, LA, C, T], [("map with custom functions", BC), ("key comparison in the shortcut", LA)], [], ["results for equivalent but distinct keys"])
p("C21", "Arguments are forwarded faithfully: lvalues kept intact, rvalues moved",
  "insert and emplace (pairs, perfect-forwarded single arguments, piecewise tuples) store exactly the key and value described by their arguments, for new and for already present keys, without modifying arguments passed as lvalues and without copying what was passed as rvalue into a new entry. Arguments may refer to keys or values stored in the same cache; if the cache has capacity zero, nothing is stored.",
  ["inputs", "histories"], "Every insertion form and argument category, new and existing keys, full and non-full caches, arguments aliasing stored entries.",
  "The tests count moves for one new key per form; updates, evictions and aliasing arguments are never tried.",
  [BC, "internal/information.hpp", "internal/utility.hpp"], [("construct_from_tuple", "internal/utility.hpp"), ("emplace overloads", BC)], [], ["stored values, arguments after the call, copy/move counters"])
p("C22", "Operations cost a constant number of hash computations",
  "Every single-key operation, every step of an iteration, and moving or swapping whole caches compute the hash of keys, compare keys, and copy or move keys and values at most a small constant number of times, whatever the size of the cache and the position of the key in it. Asking with contains, lookup or subscript for the key accessed last again (such as lookup after contains) needs no further hash computation, so such a pair involves only one hash lookup.",
  ["configurations", "histories"], "Every cache size up to the bound, every key position and every single-key operation.",
  "One test counts hash calls on an empty cache (and fails with current standard libraries).",
  [BC, LA, C, T], [("last-accessed shortcut", LA), ("iterator stored per entry", "internal/information.hpp")], [], ["counting hash function"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
