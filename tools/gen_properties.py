#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so that long texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

BM="include/indexes/btree/map.h"; BK="include/indexes/btree/key.h"; BC="include/indexes/btree/concurrent_map.h"; BCo="include/indexes/btree/common.h"
AM="include/indexes/art/map.h"; AC="include/indexes/art/concurrent_map.h"
HC="include/indexes/hashtable/concurrent_map.h"; EM="include/indexes/utils/EpochManager.h"; UT="include/indexes/utils/Utils.h"
NOCOMP=" The concurrent structures are not even compiled by the reliable test set."

p("C01","B+tree map agrees with an ordered dictionary on every operation sequence",
 "For every finite sequence of insertions, overwrites, lookups and erasures (by key or by iterator) on the single-threaded B+tree map, every result - value read, found/not found, erased/not erased, size, emptiness - is the one an ordinary ordered dictionary gives. This holds whatever the node size, the merge threshold, the key type and the comparator the keys are ordered by, however often nodes split, are compacted, merge or run empty; keys and values of any size and alignment are stored where their types allow.",
 ["histories","configurations"],"all operation sequences, all node geometries (capacity, merge threshold) and key types",
 "testBtreeMap.cpp runs one pseudo-random mix per key type with one geometry; the structure reached by a particular order of splits, merges and trims after emptying a leaf is hit by luck only.",
 [BM],[("insert, split, trim","map::operator[], insert_into_node, handle_overflow, split_node, trim_node"),("erase, merge","map::erase, remove_from_node, merge_node, find_parent, get_merge_info"),("search","map::find, inherited_node_t::lower_bound, search_inner")],["find","operator[]","erase","size","empty"])

p("C02","B+tree map iterates exactly its entries, in order, in both directions",
 "After any operation sequence on the single-threaded B+tree map, iterating forward visits every live entry exactly once in ascending key order (ascending by the map's comparator) and reverse iteration visits exactly the same entries in the opposite order, for mutable and read-only access alike. From any entry, stepping forward then back (or back then forward) returns to it, and begin equals end exactly when the map is empty.",
 ["histories","configurations"],"all operation sequences and node geometries, every starting entry, both directions, const and non-const",
 "Tests only iterate over a freshly loaded map or compare at the end of one random run; leaves emptied by erasures next to the iteration point, and const iteration, are not sampled.",
 [BM],[("iterator stepping","iterator_impl::increment/decrement, get_next_leaf, get_prev_leaf"),("ends","map::begin/end/rbegin/rend/cbegin/cend/crbegin/crend, get_first_leaf, get_last_leaf")],["begin","end","rbegin","rend","operator++","operator--"])

p("C03","B+tree bound searches return the exact boundary, also for partial keys",
 "In every reachable single-threaded B+tree map, a lower-bound search for a probe returns the first entry not less than it and an upper-bound search the first entry greater than it, or the end when there is none, for present, absent and extreme probes alike. 'Less' is the order of the map's comparator. The same holds for a probe that is a shorter prefix of a compound key, which orders before every key it is a prefix of.",
 ["histories","inputs","configurations"],"all reachable maps, all probes (including prefixes of compound keys), const and non-const",
 "The tests probe a handful of keys in one loaded map and never after erasures.",
 [BM,BK],[("bounds","map::lower_bound/upper_bound, get_upper_bound_leaf, upper_bound_pos, lower_bound_pos"),("partial keys","detail::less")],["lower_bound","upper_bound"])

p("C04","Compound keys compare lexicographically and consistently, prefixes first",
 "Ascending compound keys are ordered lexicographically by their components, descending ones lexicographically with larger components first; a key that is a proper prefix of another is smaller than it. The six comparison operators always agree with this one total order (antisymmetric, transitive, equality exactly when neither is smaller and lengths match), for any mix of component types and lengths.",
 ["inputs"],"all pairs and triples of compound keys of length 1 to 3 over a small ordered component domain, with several component types",
 "Tests use a few compound keys of one shape; order axioms quantify over all pairs and triples.",
 [BK],[("ordering","detail::less, operator<,>,<=,>=,==,!= on compound_key")],["operators"])

p("C05","B+tree map constructs and destroys every key and value exactly once",
 "A value created by first access to a key is properly value-initialised, and every key or value object the single-threaded B+tree map constructs is destroyed exactly once, at the latest when the map is destroyed, with all memory returned. No operation reads, assigns or destroys an object that is not alive, and an entry's contents are never altered by operations on other keys.",
 ["histories","configurations"],"all operation sequences over key and value types with non-trivial construction and destruction",
 "Tests use plain values and do not count constructions; a leak or a read of a dead object leaves results unchanged.",
 [BM],[("element storage","inherited_node_t::append, insert_into_pos, remove, ~inherited_node_t, copy_from"),("node ownership","node_t::free, ~map, merge_node, split_node, trim_node")],["constructor/destructor counts","allocator"])

p("C06","Radix-tree map agrees with a dictionary on every operation sequence",
 "For every finite sequence of insert, upsert, update, delete and search on the single-threaded radix-tree map over 64-bit keys, each operation's result (found value, previous value, success or failure) and the size are those of an ordinary dictionary, also after the map has been moved. This holds for every set of keys, whatever byte prefixes they share and however many siblings a branch has, while branches grow, shrink, split and rejoin.",
 ["histories","inputs"],"all operation sequences over key sets that exercise every branch width class (4, 16, 48, 256) at every byte position and all shared-prefix shapes",
 "testART.cpp is not compiled by the reliable tests and uses random keys with one distribution; growth of a branch below a multi-byte compressed path needs particular prefixes.",
 [AM],[("expand/split","map::insert path, add_to_parent, node4/16/48/256 add/update"),("shrink/collapse","map::Delete path, remove, shrink")],["Search","Insert","Upsert","Update","Delete","size"])

p("C07","Radix-tree map frees every allocation exactly once and never uses freed memory",
 "Every operation sequence on the single-threaded radix-tree map touches only memory that is currently allocated to it, frees nothing twice, and destroying the map releases everything it allocated. After deleting all keys no leftover branches keep growing without bound: repeating an insert/delete cycle does not increase the memory in use.",
 ["histories","inputs"],"all operation sequences as for C06, ending in destruction after each prefix",
 "Functional tests cannot see a use of freed memory or a leak.",
 [AM],[("ownership","node allocation and deletion in add_to_parent, erase_leaf, ~map")],["allocator","instrumented memory accesses"])

p("C08","Concurrent radix tree used by one thread agrees with a dictionary",
 "Used from a single thread, the concurrent radix-tree map gives for every sequence of insert, upsert, update, delete, search, size, reserve and reclamation calls exactly the results of an ordinary dictionary, including after being moved. Memory in use is valid at every access and entirely released at destruction after reclamation.",
 ["histories","inputs"],"all operation sequences over key sets exercising every branch width class and shared-prefix shape",
 "Not compiled by the reliable tests; its own tests insert one distribution of keys and check lookups."+NOCOMP,
 [AC],[("insert","concurrent_map::insert, add_to_parent, expand"),("delete","remove_leaf, shrink_node")],["public API","allocator"])

p("C09","Concurrent radix tree is linearizable under every schedule",
 "Whatever the interleaving of threads inserting, upserting, updating, deleting and searching the same or neighbouring keys, every operation's result is as if the operations had been applied one at a time to a dictionary in an order that respects real time. Once all threads finish, the contents reflect exactly that order: no acknowledged insert, update or delete is lost and none is applied twice.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of small concurrent programs over structures about to grow, split, collapse or empty",
 "Stress tests sample a few of the astronomically many schedules and check only the final contents."+NOCOMP,
 [AC],[("optimistic versioned reads and locked writes","node_snapshot_t::lock, version checks, mark_as_deleted"),("structure changes","add_to_parent, shrink_node, remove_leaf, root replacement")],["call/return history","final contents"])

p("C10","Concurrent radix tree never touches reclaimed memory and leaks nothing",
 "Under every schedule no thread of the concurrent radix-tree map reads, writes, locks or frees memory that has already been freed, and nothing is freed twice. After all threads finish, reclaiming and destroying the map returns all its memory. The same holds for values of any copyable type: a value object is never copied while another thread replaces or destroys it, and each one is destroyed exactly once.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of readers and writers with reclamation happening as early as the algorithm allows",
 "A use-after-free window is a few instructions wide and invisible to functional tests."+NOCOMP,
 [AC,EM],[("deferred reclamation","EpochManager use in concurrent_map, retire calls in insert/delete paths"),("locks of removed nodes","shrink_node, lock guards")],["instrumented memory accesses","allocator"])

p("C11","Concurrent radix-tree operations always complete",
 "Under every fair schedule each call on the concurrent radix-tree map returns: threads never deadlock, never wait for a lock that will not be released, and never retry for ever once the other threads have finished or stopped interfering.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) with a fairness-bounded continuation",
 "A lost unlock or a lock-order cycle needs a particular interleaving."+NOCOMP,
 [AC],[("locking protocol","lock acquisition order of parent, node and sibling; restart loops")],["thread completion"])

p("C12","Concurrent B+tree used by one thread agrees with an ordered dictionary",
 "Used from a single thread, the concurrent B+tree map gives for every sequence of insert, upsert, update, delete, search and reclamation calls exactly the results of an ordered dictionary (found value, previous value, success), whatever the node geometry and the key type (integers, strings, composites, types of any size and alignment, and keys that only a comparator given with each call can order). When size statistics are enabled the reported size always equals the number of keys present.",
 ["histories","configurations"],"all operation sequences and node geometries",
 "Not compiled by the reliable tests; its own tests use one random mix."+NOCOMP,
 [BC],[("insert/split/trim","concurrent_map::Insert/Upsert/Update, split, trim, root creation"),("delete/merge","Delete, merge, root collapse")],["public API"])

p("C13","Concurrent B+tree iteration and range scans deliver exactly the range",
 "With no concurrent writer, forward, reverse and bounded scans of the concurrent B+tree deliver exactly the entries in the requested range once each, in ascending (or, for reverse scans, descending) key order, honouring inclusive and exclusive limits, and bound searches start at the exact boundary. This holds in every reachable map, including empty and emptied ones, and for limits that are absent from the map or beyond its smallest or largest key.",
 ["histories","inputs","configurations"],"all reachable maps over a small key universe x all range limits x inclusive/exclusive x direction",
 "Own tests scan one loaded map; deleted leaves and absent limits are not sampled."+NOCOMP,
 [BC],[("iterators","iterator_impl, get_slots_greater_than/less_than, get_next_leaf/get_prev_leaf"),("ranges","range_iter, rrange_iter, lower_bound, upper_bound, begin/rbegin")],["begin/end","range_iter","rrange_iter","lower_bound","upper_bound"])

p("C14","Concurrent B+tree point operations are linearizable under every schedule",
 "Whatever the interleaving of threads inserting, upserting, updating, deleting and searching, every operation's result on the concurrent B+tree is as if the operations had been applied one at a time in an order that respects real time, also while leaves and inner nodes split, are compacted or merge and the root grows or collapses. Once all threads finish, the contents reflect exactly that order.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of small concurrent programs started on trees about to split, trim, merge or change height",
 "Stress tests sample a few schedules and only check the final contents."+NOCOMP,
 [BC],[("optimistic reads / node locks","node snapshot validation, lock_node_or_restart, mark as deleted"),("structure changes","split, trim, merge, store_root")],["call/return history","final contents"])

p("C15","Concurrent B+tree scans stay ordered and complete while others write",
 "A forward or reverse scan that runs while other threads insert and delete visits keys in strictly monotonic order without duplicates, delivers every key that is present during the whole scan, and never delivers a key or value that was not in the map at some moment during the scan. This holds even when the leaf under the iterator is split, merged or removed between steps.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of one scanner with writers that split, merge, trim or empty the leaves under it",
 "No test scans concurrently with writes."+NOCOMP,
 [BC],[("iterator repositioning","iterator_impl::increment/decrement, get_slots_greater_than/less_than, snapshot copies")],["scan output"])

p("C16","Concurrent B+tree never touches reclaimed memory and leaks nothing",
 "Under every schedule no thread of the concurrent B+tree reads, writes, locks or frees memory that has already been freed, and nothing is freed twice. After all threads finish, reclaiming and destroying the map returns all its memory and every stored key and value object has been destroyed exactly once.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of readers, scanners and writers with the earliest possible reclamation",
 "Use-after-free windows are a few instructions wide."+NOCOMP,
 [BC,EM],[("deferred reclamation","retire calls in split/merge/trim, epoch guards in operations and iterators")],["instrumented memory accesses","allocator"])

p("C17","Concurrent B+tree operations always complete",
 "Under every fair schedule each call on the concurrent B+tree returns normally: threads never deadlock, never crash on a missing lock or node, and never retry for ever once the others have finished or stopped interfering, including when repeated interference makes an operation fall back to waiting for locks.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) with a fairness-bounded continuation",
 "The fallback path needs several conflicts in a row and is never reached by tests."+NOCOMP,
 [BC],[("restart and fallback","lock_node_or_restart, optimistic-to-pessimistic fallback, root mutex")],["thread completion"])

p("C18","Hash table used by one thread agrees with a dictionary for any hash function",
 "Used from a single thread, the hash table gives for every sequence of insert, upsert, update, delete, search, reserve and reclamation calls exactly the results of an ordinary dictionary, and its size equals the number of keys present, also after being moved. This holds for every hash function, including ones under which many keys collide, share a home slot or take extreme hash values, across any number of growth steps from any initial capacity, and for keys and values of any size and alignment.",
 ["histories","inputs","configurations"],"all operation sequences over small key universes x hash functions (identity, constant, clustered, extreme values) x initial capacities and probe limits x both link widths",
 "Own tests use integer keys with the default hash."+NOCOMP,
 [HC],[("probing and chaining","search, insert, link chain, tombstones"),("growth","migrate buckets, try_migrate_table")],["public API"])

p("C19","Hash table is linearizable under every schedule, also while it grows",
 "Whatever the interleaving of threads inserting, upserting, updating, deleting and searching, every operation's result on the hash table is as if the operations had been applied one at a time to a dictionary in an order that respects real time, even when keys collide and while the table is being grown by one or several threads. Once all threads finish, each acknowledged write is present exactly once.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of small programs over colliding keys and tables about to grow",
 "Growth under concurrent writers is a rare event in stress tests."+NOCOMP,
 [HC],[("bucket states and links","bucket lock/state transitions, chain links"),("cooperative growth","migration of buckets, table switch")],["call/return history","final contents"])

p("C20","Hash table never touches reclaimed memory and destroys each entry once",
 "Under every schedule no thread of the hash table accesses freed memory or frees anything twice. Every key and value object it constructs is destroyed exactly once, and after all threads finish, reclaiming and destroying the table returns all of its memory.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) and all short sequential histories with counted key/value types",
 "Invisible to functional tests."+NOCOMP,
 [HC,EM],[("retirement","retire of tables and entries, destroy of entries")],["instrumented memory accesses","allocator","constructor/destructor counts"])

p("C21","Hash table operations always complete",
 "Under every fair schedule each call on the hash table returns: threads never deadlock, never wait for a growth step nobody will finish, and never retry for ever once the other threads have finished or stopped interfering.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) with a fairness-bounded continuation",
 "Needs particular interleavings of growth and writers."+NOCOMP,
 [HC],[("growth hand-off","waiting for migration, migration state machine")],["thread completion"])

p("C22","Sizes of the concurrent containers are exact once all threads finish",
 "After any set of concurrent operations on the radix tree, the hash table or the (statistics-enabled) B+tree has finished, the reported size equals the number of keys that searches find, and emptiness and load factor agree with it. Concurrent size queries themselves are safe, and a size read while other threads work is never below the keys no thread may have deleted nor above the keys that may have been inserted so far: it cannot wrap around.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of inserts, upserts and deletes with and without growth",
 "Sizes are compared in tests only after runs whose races happen not to hit."+NOCOMP,
 [AC,HC,BC],[("counters","size accounting in insert/upsert/delete and during growth")],["size","empty","load_factor"])

p("C23","Epoch reclamation never frees an object a registered reader may still use",
 "An object handed to the epoch manager for reclamation is not destroyed while any thread is still inside a protected section it had entered before the object was retired, even if that section is nested and even on hardware that lets a thread's stores become visible late (total store order). Leaving an inner nested section does not end the outer one's protection.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) under sequential consistency and under a store-buffer (TSO) memory model, of readers, nested readers, retirers and reclaimers",
 "The window between announcing and reading needs a particular interleaving or hardware reordering."+NOCOMP,
 [EM],[("announce/scan","EpochManager::enter_epoch, exit_epoch, get_min_used_epoch, do_reclaim")],["destruction of retired objects"])

p("C24","Epoch reclamation destroys each retired object exactly once, eventually",
 "Every object handed to the epoch manager is destroyed at most once, whichever threads retire, advance and reclaim at the same time; once no thread is inside a protected section, a full reclamation destroys every object retired before it, and a bounded number of further retirements triggers reclamation by itself. Destroying an object may retire others: they too are destroyed once, at the latest with the manager. The manager's notion of now never goes backwards and a thread's announced epoch is visible only while it is inside a protected section.",
 ["schedules","histories"],"all short sequential histories and all interleavings (up to a preemption bound) of retire, advance, reclaim, enter and exit calls by up to three threads",
 "Double frees or stuck garbage need particular histories."+NOCOMP,
 [EM],[("retire lists and threshold","retire_in_new_epoch, retire_in_current_epoch, do_reclaim, reclaim_all, switch_epoch")],["destruction of retired objects","now","my_epoch"])

p("C25","B+tree maps stay balanced and report their height exactly",
 "In every reachable B+tree map, single-threaded or concurrent, and also once all threads of a concurrent program have finished, every lookup passes through the same number of nodes whichever key is looked up, so all leaves are equally deep. The height the map reports is exactly that number for the concurrent map (0 while it has no entry yet) and one less for the single-threaded map. Overwriting, searching, compacting, merging and erasing never add a level; only inserting a new key does, one level at a time.",
 ["histories","configurations","schedules"],"all operation sequences and node geometries; all interleavings (up to a preemption bound) of small concurrent programs",
 "No test calls height() or looks at the depth of the tree; a level too many, or a wrong height after compacting the root, leaves every lookup correct and only costs time or misleads the traversals sized by it.",
 [BM,BC],[("levels","map::update_root, handle_overflow; concurrent_map::store_root, update_root, height"),("trim and merge of the root","trim_node, merge_node")],["height","nodes touched by a lookup"])

p("C26","Shared memory is synchronised: no data races in the concurrent containers",
 "In every schedule of operations on the concurrent radix tree, the concurrent hash table and the epoch manager, any two conflicting accesses to heap memory by different threads, at least one of them not atomic, are ordered by the happens-before relation of the C++ memory model: new nodes, tables and values are published with release operations that readers acquire, and memory is freed only after every earlier access to it happens-before the deallocation. The concurrent B+tree, whose readers look at nodes optimistically and validate afterwards, never has two unordered writes to the same bytes and never accesses memory that is not ordered after its allocation and before its deallocation. Values that are trivially copyable and at most a machine word large may be read while they are replaced.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of small concurrent programs, with happens-before derived from the memory order of each operation in every one of them",
 "A missing release or acquire, or an access moved out of a critical section, changes nothing on the machine the tests run on; it shows only on weaker hardware or after another compiler's reordering."+NOCOMP,
 [AC,HC,BC,EM],[("publication of nodes","store_rs/load_aq helpers, node4_t..node256_t::add/update"),("buckets","Bucket::emplace, free, link stores"),("values","leaf_t::load, Search, update paths"),("epochs","enter_epoch, exit_epoch, do_reclaim")],["instrumented memory accesses with their memory order","allocator"])

p("C27","Dumps list exactly the entries and nodes of a map",
 "In every reachable state, dump() of a B+tree map, a concurrent B+tree (used by one thread, or at rest after any schedule of concurrent operations) and a radix tree prints the whole tree once: the last level of a B+tree's dump lists exactly the map's keys in order, each line above it has one node per child position of the level before it and keys that separate its subtrees, and the first line is the single root. A radix tree's dump shows every key with its present value once, and prints every node that it refers to exactly once. Dumping works for every map type and does not change the map.",
 ["histories","configurations","schedules"],"all reachable trees: every node kind, empty nodes, root changes, for sequential and concurrent maps",
 "No test reads a dump (the existing tests do not instantiate most of these functions); which node kinds and levels are present depends on the history.",
 [BM,BC,AC,"include/indexes/art/node_common.h"],[("B+tree","map::dump, leaf_node_t::dump, inner_node_t::dump; btree_dump, concurrent_map::dump"),("radix tree","ART_NODE_DUMP_METHODS, art_dump, dump_node")],["dump"])

p("C28","B+tree statistics count splits and merges exactly",
 "In every reachable state of a B+tree map or a concurrent B+tree that keeps statistics (used by one thread, or at rest after any schedule of concurrent operations), the counters agree with the tree: the leaf splits less the leaf merges account for the number of leaves, the inner-node splits less the inner-node merges for the number of inner nodes on each level but the newest node of each level, and a change that was attempted but abandoned is not counted. The statistics print every counter with its value.",
 ["histories","configurations","schedules"],"all operation sequences and schedules, with splits and merges at every level that are completed or abandoned because another thread interferes",
 "The tests print statistics without checking them; a counter is off by one only after a split or merge that is abandoned or happens at an unusual level.",
 [BM,BC],[("counting","BTREE_UPDATE_STAT / BTREE_UPDATE_STAT_NODE uses in handle_overflow, split_node, trim_node, merge_node"),("printing","btree_stats_t::dump")],["get_stats","dump"])

p("C29","Searches and reclamation never wait for other threads",
 "In every schedule, a search of the concurrent radix tree or of the concurrent hash table (for values that are trivially copyable and at most a machine word large) returns without waiting for any other thread, even if other threads are stopped in the middle of inserting, updating, deleting, growing a node or replacing the table: it takes no lock that another thread holds, does not sleep and does not spin until another thread goes on. The same holds for the size queries of the concurrent containers and for every operation of the epoch manager: entering and leaving a section, retiring and reclaiming never wait for readers or for each other.",
 ["schedules","histories"],"all interleavings (up to a preemption bound) of small client programs, with every other thread stopped at every point",
 "A search that waits returns the right result, later; only a schedule which stops a writer at the right moment shows it."+NOCOMP,
 [AC,HC,EM,BC],[("searches","concurrent_map::Search"),("size queries","size, empty, load_factor"),("reclamation","enter_epoch, exit_epoch, retire, do_reclaim, reclaim_all")],["search","size","mutex acquisition"])

p("C30","Repeating operations that restore the contents does not grow memory",
 "In every reachable state of every container (used by one thread, or at rest after any schedule of concurrent operations), repeating a cycle of operations that ends with the contents it started with - deleting and inserting a key, overwriting values, emptying and refilling, reserving the same capacity - reaches a bound of the memory held, however often it is repeated: the space of deleted and replaced entries is used again, nodes and tables that were replaced are freed once no reader can use them, and tables do not grow while the number of keys does not.",
 ["histories","schedules","configurations"],"all short operation sequences and schedules, followed by cycles repeated up to thousands of times",
 "A container that grows slowly passes every functional test and frees everything when it is destroyed; the growth appears only in long-running use and after particular histories.",
 [BM,BC,"include/indexes/art/map.h",AC,HC,EM],[("compaction before splitting","handle_overflow, trim_node"),("tombstones and table size","migrate_table, reserve"),("reclamation","retire, do_reclaim")],["memory held (allocator)"])
p("C31","Containers of the same type, and epoch managers, are independent of each other",
 "Whatever is done with one container or epoch manager - creating it, any operations on it by the same or by other threads, iterators held on it, moving, reclaiming, destroying it - another one of the same type that is alive at the same time yields exactly what its own operations determine: its searches, size, scans and return values do not change, its iterators and the objects a reader of it can reach stay valid, threads that use only it neither wait for nor race with threads that use the other one, and what was retired with it is reclaimed exactly once.",
 ["histories","schedules","configurations"],"all short operation sequences and schedules in which several instances are alive together, with all positions of the operations on the others",
 "Every test uses one instance at a time; state shared by accident (a static buffer or counter, thread-local caches, one thread's announcements kept for all managers) shows only when several instances are used together, in particular orders.",
 [BM,BC,"include/indexes/art/map.h",AC,HC,EM],[("per-instance state","members m_root, m_height, m_stats, m_gc, m_size"),("per-manager announcements","m_local_epoch, m_retire_list"),("iterators of several maps","iterator_impl, m_slots, m_eg")],["search results, sizes, scans of each instance","accesses to freed memory, data races, waiting"])

open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
