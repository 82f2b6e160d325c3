#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property). Kept as source so that the wording stays in one place."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

RAND = "The existing tests run one insert-all / look-up-all / remove-all history over random 10-20 byte strings; "

p("C01", "Hash tables behave as exact key-value maps",
  "For every history of put, get, has, remove and size calls on either hash table (separate chaining or linear hashing), every answer equals that of a mathematical map: a get returns the value most recently put, absent keys report an error (get, remove) or false (has), and the size is the number of distinct live keys. "
  "Key, value, pair and item iterators yield every live entry exactly once and nothing else. "
  "This holds for any requested initial capacity, across every table growth or bucket split, and for any hash values the keys report (equal, colliding, negative, extreme).",
  ["histories", "inputs", "configurations"],
  "all operation histories, all key hash values (including collisions, negative and minimum int), all initial capacities, all sizes across growth and split thresholds",
  RAND + "hash values are spread-out FNV sums, so adversarial collisions, negative/extreme hashes, re-insertion after removal and partially split linear-hash rounds are never exercised.",
  ["hashtable/hashtable.go", "hashtable/linhash.go", "tree/avl/avltree.go", "types/util.go"],
  [("bucket selection from the hash", "hashtable.Hash.bucket, hashtable.LinearHash.bucket"), ("table doubling", "hashtable.Hash.expand"), ("incremental split", "hashtable.LinearHash.split")],
  [("table/size", "bucket chains and live count", "hashtable.Hash"), ("table,n,r,i", "buckets, bucket count, records, address bits", "hashtable.LinearHash")],
  ["Put", "Get", "Has", "Remove", "Size", "Iterate", "Keys", "Values", "Items"])

p("C02", "AVL tree behaves as an exact ordered map",
  "For every history of put, get, has, remove and size calls on the mutable AVL tree (through the tree or through its nodes), every answer equals that of a mathematical map, and a failed removal of an absent key changes nothing. "
  "Iteration over pairs, keys, values and items yields every live entry exactly once in ascending key order, and the nodes reachable from the root are exactly the live entries.",
  ["histories", "inputs"], "all interleavings of insertions, overwrites, successful and failed removals over any keys",
  RAND + "they never remove an absent key after a removal, never mix removals with insertions, and only check one fixed 10-key insertion order for iteration.",
  ["tree/avl/avltree.go", "tree/util.go", "types/util.go"],
  [("recursive insert/remove with rebalancing", "avl.AvlNode.Put, Remove, balance, rotate_left, rotate_right"), ("in-order traversal", "tree.TraverseBinaryTreeInOrder")],
  [("root", "root node of the tree", "avl.AvlTree")], ["Put", "Get", "Has", "Remove", "Size", "Iterate", "Keys", "Values", "Items", "Root"])

p("C03", "Immutable AVL tree is an ordered map whose snapshots never change",
  "For every history, the immutable AVL tree (and its node-level interface) gives the answers of a mathematical map and iterates in ascending key order. "
  "Every node, root or partially consumed iterator obtained at some point keeps showing exactly the contents and shape it had then, no matter which operations are performed afterwards on the tree or on any other version.",
  ["histories", "schedules", "inputs"], "all operation histories, all versions retained, all points at which an iterator was opened and later resumed",
  RAND + "no test keeps an old version while the tree changes, so a write into a shared node goes unnoticed.",
  ["tree/avl/imm_avltree.go", "tree/util.go"],
  [("copy on write along the search path", "avl.ImmutableAvlNode.Copy, Put, Remove, pop_node, push_node, rotate")],
  [("root", "current version", "avl.ImmutableAvlTree")], ["Root", "Put", "Remove", "Get", "Iterate", "Left", "Right", "Height"])

p("C04", "AVL trees stay height balanced after every history",
  "After any history of insertions, overwrites and removals (successful or not), at every node of either AVL tree variant the real heights of the two subtrees differ by at most two, so search paths stay logarithmic in the number of entries. "
  "The height a node reports equals its real height.",
  ["histories", "inputs"], "all histories of puts and removes, all insertion orders, all tree sizes",
  "No existing test looks at heights at all; sorted and zig-zag insertion orders and removals are never measured.",
  ["tree/avl/avltree.go", "tree/avl/imm_avltree.go"],
  [("rebalancing on the way back up", "avl.AvlNode.balance, avl.ImmutableAvlNode.balance")],
  [("height", "cached subtree height", "avl.AvlNode, avl.ImmutableAvlNode")], ["Root", "Left", "Right", "Height"])

p("C05", "B+Tree multimap keeps exactly the added entries, duplicates included",
  "For every history of add, replace-where, remove-where, find, count, has and size calls on the B+Tree, the tree holds exactly the multiset of entries added and not removed: remove-where removes precisely the entries of that key whose value satisfies the predicate, replace-where rewrites precisely those, and size, count, has and find report them exactly. "
  "Operations on absent keys or an empty tree change nothing and never panic. "
  "This holds for every node size of at least two and any number of duplicates per key.",
  ["histories", "inputs", "configurations"], "all operation histories, predicates, node sizes >= 2, runs of duplicates spanning any number of leaves",
  "The tests only use distinct random keys with an always-true predicate, and one add-all/remove-all history per node size; duplicate runs, selective predicates and absent keys are not exercised.",
  ["tree/bptree/bptree.go", "tree/bptree/bptree_node.go"],
  [("leaf and internal splits", "bptree.BpNode.leaf_split, pure_leaf_split, internal_split, balance_nodes"), ("removal", "bptree.BpNode.leaf_remove, internal_remove"), ("size accounting", "bptree.BpTree.Add, RemoveWhere")],
  [("root,size", "root node and entry count", "bptree.BpTree")], ["Add", "RemoveWhere", "Replace", "Find", "Count", "Has", "Size"])

p("C06", "B+Tree iteration and range queries are exact and ordered in both directions",
  "In every reachable B+Tree, forward iteration yields all entries in ascending key order, backward iteration yields all entries in descending order, key iteration yields every distinct key once in order, and value and item iteration match. "
  "A range query from a to b yields exactly the entries whose keys lie between a and b inclusive, ascending when a <= b and descending when a > b, whether or not a or b are present and also on an empty tree.",
  ["histories", "inputs", "configurations"], "all reachable trees, all pairs of range end points (present, between, below and above the stored keys), all node sizes >= 2",
  "The tests query two ranges whose end points are both stored keys, over distinct keys only.",
  ["tree/bptree/bptree.go", "tree/bptree/bptree_node.go"],
  [("start/end location", "bptree.BpNode.get_start, get_end, forward, backward"), ("leaf chain", "bptree.insert_linked_list_node, remove_linked_list_node, next_location, prev_location")],
  [("next/prev", "leaf chain", "bptree.BpNode")], ["Iterate", "Backward", "Keys", "Values", "Items", "Range", "Find"])

p("C07", "B+Tree map behaves as an exact ordered map",
  "For every history of put, get, has, remove and size calls on the unique-key B+Tree, including on an empty tree, every answer equals that of a mathematical map: putting an existing key overwrites its value without changing the size, and getting or removing an absent key reports an error and changes nothing. "
  "Iteration over pairs, keys and values yields every live entry exactly once in ascending key order, for every node size of at least two.",
  ["histories", "inputs", "configurations"], "all operation histories and node sizes >= 2",
  RAND + "one node size (23), no operation on the empty map, no insertion after removal, no iteration.",
  ["tree/bptree/bpmap.go", "tree/bptree/bptree.go", "tree/bptree/bptree_node.go"],
  [("unique-key leaf insert", "bptree.BpNode.leaf_insert"), ("empty-node unlinking", "bptree.BpNode.internal_remove, leaf_remove")],
  [("root,size", "root node and entry count", "bptree.BpMap")], ["Put", "Get", "Has", "Remove", "Size", "Iterate", "Keys", "Values"])

p("C08", "Ternary search trie is an exact map iterated in lexicographic order",
  "For every history of put, get, has and remove calls on the trie with any byte-string keys, every answer equals that of a map from byte strings: keys that are prefixes of one another, single bytes, high bytes and re-insertions after removal included. "
  "Empty keys and keys containing a zero byte are rejected with an error and change nothing. "
  "Iteration over pairs, keys, values and items yields every live entry exactly once in ascending lexicographic byte order.",
  ["histories", "inputs"], "all operation histories over any byte-string keys",
  RAND + "random 10-byte keys almost never share prefixes, and nothing is ever put after a remove.",
  ["trie/tst.go", "trie/tst_node.go", "tree/util.go", "types/util.go"],
  [("leaf split and path copying insert", "trie.TSTNode.insert, split"), ("pruning remove", "trie.TST.Remove")],
  [("heads", "root per first byte", "trie.TST")], ["Put", "Get", "Has", "Remove", "Iterate", "Keys", "Values", "Items"])

p("C09", "Trie prefix search returns exactly the keys with that prefix",
  "In every reachable trie, for every byte string used as a prefix (empty, shorter or longer than stored keys, equal to a stored key, or matching nothing), the prefix search yields exactly the live entries whose key starts with it, each once, in ascending lexicographic order, and never panics.",
  ["histories", "inputs"], "all reachable tries and all prefixes",
  "The tests query prefixes of a handful of fixed words; prefixes longer than a stored key or after removals are not exercised.",
  ["trie/tst.go", "tree/util.go"],
  [("descent to the prefix node and pre-order walk", "trie.TST.PrefixFind, tree.TraverseTreePreOrder")],
  [("heads", "root per first byte", "trie.TST")], ["PrefixFind"])

p("C10", "The trie neither modifies nor depends on the caller's key memory",
  "No trie operation changes any byte of a slice passed in as key or prefix or of the memory behind it, and after an operation has returned the caller may overwrite that memory without changing what the trie contains. "
  "Keys handed out by iterators can be extended (appended to) by the caller without changing the trie.",
  ["histories", "inputs"], "all operations, all key slices including ones with spare capacity shared with other data, all later overwrites",
  "The tests convert fresh strings to slices and never reuse a buffer, so aliasing between caller and trie memory is invisible.",
  ["trie/tst.go", "trie/tst_node.go"],
  [("building the terminated key", "trie.TST.Put, Get, Remove"), ("slicing stored keys", "trie.TST.Iterate, PrefixFind")],
  [("key", "stored terminated key", "trie.KV")], ["Put", "Get", "Has", "Remove", "PrefixFind", "Iterate"])

p("C11", "Array list behaves as an exact sequence, growable or fixed size",
  "For every history of append, push, pop, insert, set, remove, extend, clear and copy calls on an array list of any initial capacity, its contents, size, emptiness, membership answers and forward and reverse iteration equal those of a mathematical sequence; out-of-range indices and popping an empty list report an error and change nothing. "
  "A fixed-size list accepts items up to its size, reports full exactly then, and rejects further items with an error leaving the contents unchanged. "
  "A copy, or a list built from a slice, is independent of its source, and sorting a list through its sort adapter yields a sorted permutation.",
  ["histories", "inputs", "configurations"], "all operation histories, indices and initial capacities, across every internal growth and shrink threshold",
  "The tests use a handful of fixed lengths (around 100) with append-then-remove histories, so most growth/shrink boundaries and index positions are never combined.",
  ["list/array_list.go"],
  [("shift on insert/remove", "list.List.Insert, Remove"), ("capacity management", "list.List.expand, shrink")],
  [("list,fixed", "backing slice and fixed flag", "list.List")], ["Append", "Push", "Pop", "Insert", "Set", "Get", "Remove", "Extend", "Clear", "Copy", "Items", "ItemsInReverse", "Has", "Full", "Empty", "Size"])

p("C12", "Sorted list keeps exactly its items in order, with or without duplicates",
  "For every history of add, delete, remove-by-index, extend, clear and copy calls on a sorted list, its contents in ascending order equal the sorted multiset (duplicates allowed) or set (duplicates disallowed, adding an existing item changes nothing) of what was added and not removed. "
  "Find returns the position of the first equal item, or the position where it would be inserted; has, item and get agree with the contents; deleting an absent item and out-of-range accesses report errors. "
  "A fixed-size sorted list never exceeds its size, rejecting further items with an error and unchanged contents.",
  ["histories", "inputs", "configurations"], "all operation histories, duplicate policies, sizes and initial capacities",
  "The tests add random integers then delete them; positions inside duplicate runs, boundary indices and mixed histories are not enumerated.",
  ["list/sorted.go", "list/array_list.go"],
  [("binary search with back-scan", "list.Sorted.Find"), ("ordered insertion", "list.Sorted.Add")],
  [("list,allowDups", "backing list and duplicate policy", "list.Sorted")], ["Add", "Delete", "Remove", "Find", "Has", "Item", "Get", "Extend", "Items", "ItemsInReverse", "Copy"])

p("C13", "Set algebra is exact for every pair of sets and set kinds",
  "For every pair of sets of any supported kinds, union, intersection and subtraction return a new set with exactly the mathematically expected elements; overlap, subset, superset, proper subset and proper superset answer exactly, and so does equality of two sets of the same kind. "
  "No operation changes either operand, and later changes to the result or operands do not affect each other.",
  ["inputs", "configurations"], "all pairs of sets, all combinations of set kinds (sorted, map backed, entry sets), including empty and identical operands",
  "The tests check one or two hand-picked pairs of sorted sets; mixed kinds and the empty, equal and one-sided cases are not covered.",
  ["set/ops.go", "set/sortedset.go", "set/setmap.go", "set/mapset.go"],
  [("generic operations", "set.Union, Intersect, Subtract, Subset, ProperSubset"), ("merge union and overlap", "set.SortedSet.union, Overlap")],
  [], ["Union", "Intersect", "Subtract", "Overlap", "Subset", "Superset", "ProperSubset", "ProperSuperset", "Equals"])

p("C14", "Set and map adapters behave exactly as a set and as a map",
  "For every history, a map built from a set behaves as a map (putting an existing key replaces its value, get and remove return the current value, absent keys report errors) while still offering its entries as set items, and a set built from any of the library's maps behaves as a set (adding twice keeps one, deleting an absent item reports an error). "
  "The sorted set behaves as a set and its random pick is always a member; all their iterators yield each element exactly once, in order where the backing structure is ordered.",
  ["histories", "inputs", "configurations"], "all operation histories over every backing structure",
  "The tests put each key once, never overwrite, and back the set adapter with a single map kind.",
  ["set/mapset.go", "set/setmap.go", "set/sortedset.go", "types/map_entry.go"],
  [("entry wrapping", "set.MapSet.Put, Get, Remove, types.MapEntry"), ("set over map", "set.SetMap.Add, Delete")],
  [], ["Put", "Get", "Has", "Remove", "Add", "Delete", "Item", "Items", "Extend", "Random"])

p("C15", "Serialized lists and sets decode to an equal collection",
  "For every array list, sorted list and sorted set with serializable items, growable or fixed size and with either duplicate policy, marshalling then unmarshalling yields a collection with the same items in the same order, the same duplicate policy, the same fixed/growable behaviour and the same remaining capacity if fixed, behaving identically under all later operations. "
  "The decoded collection shares no memory with the encoded bytes, and decoding a truncated encoding reports an error instead of panicking.",
  ["inputs", "configurations", "histories"], "all collections over every provided item encoding, all truncation points",
  "The tests round-trip one random 100-element integer list per kind and read the items back.",
  ["list/array_list.go", "list/sorted.go", "set/sortedset.go", "types/util.go"],
  [("length-prefixed encoding", "list.MList.MarshalBinary, UnmarshalBinary, list.MSorted.MarshalBinary, UnmarshalBinary")],
  [], ["MarshalBinary", "UnmarshalBinary", "Sorted", "SortedSet"])

p("C16", "Every provided item type survives a marshal/unmarshal round trip",
  "For each provided integer, string and byte-slice type and every value of it, marshalling succeeds and unmarshalling the bytes gives back an equal value, both through the value's own methods and through the provided marshal function pairs. "
  "For fixed-width types, data of a wrong length is rejected with an error.",
  ["inputs"], "all values of every provided type, all wrong lengths",
  "Only small non-negative int values are round-tripped indirectly by the list tests; the other types are never marshalled.",
  ["types/int.go", "types/string.go", "types/util.go"],
  [("binary encodings", "types.Int8.MarshalBinary ... types.UInt.UnmarshalBinary, types.String, types.ByteSlice"), ("function pairs", "types.Int8Marshals ... types.ByteSliceMarshals, types.MakeMarshals")],
  [], ["MarshalBinary", "UnmarshalBinary"])

p("C17", "Heap always yields an extreme-priority item and loses nothing",
  "For every history of push, pop and peek on a min or max heap with any priorities (equal and extreme values included), pop and peek return an item whose priority is minimal (respectively maximal) among the items present, peek names the item the next pop removes, and each pushed item is popped exactly once. "
  "Size and item iteration report exactly the items present, the self-check reports no error, and popping or peeking an empty heap returns nil.",
  ["histories", "inputs", "configurations"], "all push/pop histories, all priorities, min and max, all size hints",
  "The tests push one fixed sequence of twelve and pop a few items.",
  ["heap/pq.go"],
  [("sift up/down", "heap.Heap.fixUp, fixDown, gte, lt")], [("list", "implicit binary tree", "heap.Heap")], ["Push", "Pop", "Peek", "Size", "Items", "Verify"])

p("C18", "Unique priority queue holds each item at most once",
  "For every history of add, push, pop and peek on a unique priority queue, an item already present is not added again (its priority stays as first given) and may be added again once popped; pop and peek return an item of extreme priority among those present, and size is the number of distinct items present. "
  "Popping or peeking an empty queue returns nil.",
  ["histories", "inputs"], "all histories over min and max heaps, any items and hash values",
  "One test pushes a fixed sequence once; duplicates with other priorities, re-adding after pop and the empty queue are not covered.",
  ["heap/unique.go", "heap/pq.go", "set/setmap.go", "hashtable/linhash.go"],
  [("membership set kept in step with the heap", "heap.UniquePQ.Add, Pop")], [("pq,set", "queue and membership", "heap.UniquePQ")], ["Add", "Push", "Pop", "Peek", "Size"])

p("C19", "Linked list behaves as an exact double-ended sequence",
  "For every history of enqueue and dequeue at either end, push and pop, the linked list's contents forward and backward, first and last items, membership and size equal those of a mathematical double-ended queue. "
  "Dequeuing from an empty list reports an error and changes nothing, and the publicly visible node chain is consistently linked in both directions.",
  ["histories", "inputs"], "all operation histories",
  "The tests push all items then pop all items from one end.",
  ["linked/linked.go"],
  [("relinking at both ends", "linked.LinkedList.EnqueFront, EnqueBack, DequeFront, DequeBack")], [("Head,Tail,Length", "ends and size", "linked.LinkedList")], ["EnqueFront", "EnqueBack", "DequeFront", "DequeBack", "Push", "Pop", "First", "Last", "Items", "Backwards", "Has", "Size"])

p("C20", "Unique deque is a double-ended queue without repeated items",
  "For every history, the unique deque behaves as a double-ended queue in which enqueuing an item already present, at either end, changes nothing, and an item may be enqueued again once dequeued. "
  "Membership, size, first, last and iteration in both directions always describe the same set of distinct items, and dequeuing from an empty deque reports an error.",
  ["histories", "inputs"], "all operation histories, any items and hash values",
  "The tests push distinct items then pop them all.",
  ["linked/unique.go", "linked/linked.go", "set/setmap.go", "hashtable/linhash.go"],
  [("membership set kept in step with the queue", "linked.UniqueDeque.EnqueFront, EnqueBack, DequeFront, DequeBack")], [("queue,set", "order and membership", "linked.UniqueDeque")], ["EnqueFront", "EnqueBack", "DequeFront", "DequeBack", "Push", "Pop", "First", "Last", "Items", "Backwards", "Has", "Size"])

p("C21", "Equality, ordering and hashing agree for all values and containers",
  "For every provided value type, map entry and list-like container, equality is an equivalence, less-than is a strict total order compatible with it within a type (numeric for integers, byte-wise lexicographic for strings and byte slices, by key for map entries), and equal values (including containers of different list-like kinds holding equal items in the same order) have equal hashes. "
  "Values of different scalar types are never equal; containers order first by size and then item by item; comparing never changes the values.",
  ["inputs"], "all pairs and triples of values of each type and of containers over them",
  "The tests compare a few fixed integer lists; laws over all pairs and triples and across container kinds are not checked.",
  ["types/int.go", "types/string.go", "types/map_entry.go", "list/array_list.go", "list/sorted.go", "linked/linked.go", "linked/unique.go"],
  [("typed comparisons", "types.Int.Equals, Less, Hash and siblings"), ("container comparisons", "list.Equals, list.Less, list.Hash, list.List.Hash")], [], ["Equals", "Less", "Hash"])

p("C22", "Tree traversals visit every node exactly once in the promised order",
  "For every finite tree, including the empty one, pre-order yields each node before its children, post-order each node after its children, children left to right, and in-order of a binary tree yields left subtree, node, right subtree; every node is visited exactly once and no others. "
  "Child iteration and indexed child access of tree nodes agree, and chaining traversals yields their concatenation even when some are empty.",
  ["inputs"], "all tree shapes, including empty and degenerate ones, and all combinations of chained traversals",
  "One 10-node tree is traversed by the tests.",
  ["tree/util.go", "types/util.go", "tree/avl/avltree.go", "tree/avl/imm_avltree.go", "trie/tst_node.go"],
  [("explicit stack iterators", "tree.TraverseBinaryTreeInOrder, TraverseTreePreOrder, TraverseTreePostOrder"), ("chaining", "types.ChainTreeNodeIterators")], [], ["TraverseBinaryTreeInOrder", "TraverseTreePreOrder", "TraverseTreePostOrder", "Children", "GetChild", "ChildCount"])

p("C23", "Worker pool runs every accepted task exactly once and Stop waits for it",
  "Under every interleaving of goroutines submitting tasks and stopping the pool, each task whose submission reported success runs exactly once, each task whose submission reported an error never runs, and when the stop that shuts the pool down returns all accepted tasks have finished. "
  "A submission reports an error only if the pool is being or has been stopped. After the stop returned every submission reports an error, stopping again is harmless, and no interleaving deadlocks, panics or races on memory.",
  ["schedules", "configurations"], "all schedules of submitters, workers and stoppers, all worker counts, all random worker choices, full and empty work queues",
  "The pool has no tests at all.",
  ["pool/pool.go"],
  [("stop handshake", "pool.Pool.Stop, pool.worker.work"), ("submission under a read lock", "pool.Pool.Do")],
  [("workers,workin,wg", "live workers, outstanding tasks, worker lifetime", "pool.Pool")], ["New", "Do", "Stop"])

p("C24", "Pool wait operations see a quiescent pool and never miss a wake-up",
  "Under every interleaving, once a wait-and-lock call returns every task accepted before it has finished, no task runs and no submission is accepted until the matching unlock, and blocked submissions proceed afterwards. "
  "Waiting for a count returns immediately when nothing is outstanding and otherwise after some task finishes, returning a number of outstanding tasks that was current when it returned; neither wait blocks forever while the submitted tasks (which do not call the pool) terminate.",
  ["schedules", "configurations"], "all schedules of submitters, workers, waiters and stoppers, all worker counts",
  "The pool has no tests at all.",
  ["pool/pool.go"],
  [("outstanding counter with condition variable", "pool.Pool.WaitLock, WaitCount, Unlock, pool.worker.work")],
  [("workin,workCond,mu", "outstanding tasks, wake-up, submission gate", "pool.Pool")], ["WaitLock", "Unlock", "WaitCount", "Do"])

p("C25", "Thread-safe random generator is linearizable",
  "Under every interleaving of goroutines drawing numbers from one thread-safe generator, the numbers handed out are exactly a distribution of the sequence a plain generator with the same seed produces, each drawn once and in an order consistent with the calls, with no race on generator state. "
  "Used from one goroutine it produces exactly the plain generator's sequence, also after re-seeding.",
  ["schedules", "inputs"], "all schedules of concurrent draws and re-seeds (methods drawing from the source directly), all seeds",
  "The tests only use it as a source of random test data.",
  ["rand/rand.go"],
  [("mutex around the source", "rand.lockedSource.Int63, Uint64, Seed")], [("lk,src", "lock and generator", "rand.lockedSource")], ["ThreadSafeRand", "Int63", "Uint64", "Seed", "Intn"])

p("C26", "Exception blocks follow try/catch/finally semantics for every program",
  "For every program of nested try, catch and finally blocks, the first declared catch whose type is the thrown exception's type or one it inherits from handles it, at most one catch runs per block, all finally functions of the block run exactly once in declaration order after try and catch whether or not anything was thrown, and an uncaught, rethrown or newly thrown exception leaves the block as an unwinding exception, an error or an exception value according to how it was run. "
  "Rethrowing keeps the exception's identity and type and appends the reason. "
  "Ordinary panics are never caught and skip the finally functions.",
  ["programs", "inputs"], "all nestings of blocks, exception types, handlers and run modes",
  "The tests run ten straight-line blocks with at most one catch and one finally.",
  ["exc/block.go", "exc/exception.go"],
  [("block execution", "exc.Block.run, exec, Unwind, Error, Exception"), ("type matching", "exc.isa")], [("try,catches,finallies", "block parts", "exc.Block")], ["Try", "Catch", "Finally", "Unwind", "Error", "Exception", "Throw", "Rethrow"])

p("C27", "Resource blocks close the resource exactly once on every path",
  "For every resource block, if the resource was created it is closed exactly once after the body ends, whether the body returns or throws, and before any catch or finally attached to the block runs; if creating it throws, nothing is closed. "
  "A close error surfaces as an exception of the block when nothing else failed, and exceptions from creation, body or close can be caught by the attached catches.",
  ["programs", "fault_sequences"], "all combinations of failures in creation, body, close and handlers",
  "The tests cover a successful body and one throwing body with a file.",
  ["exc/block.go", "exc/exception.go"],
  [("nested try/finally around the resource", "exc.Close")], [], ["Close", "Catch", "Finally", "Unwind", "Error", "Exception"])

p("C28", "Errors and exceptions keep every message, in order, with a stack trace",
  "An error or exception created by the library carries the formatted message and a non-empty stack trace of its creation point; chaining or joining keeps every earlier error in order and the printed text contains each of them. "
  "Joining exceptions leaves both inputs unchanged.",
  ["inputs", "histories"], "all sequences of create, chain, join and wrap operations",
  "Only one length check after a rethrow exists in the tests.",
  ["errors/errors.go", "exc/exception.go"],
  [("accumulating error lists", "errors.Error.Chain, exc.Exception.Chain, exc.Exception.Join")], [("Errs/Errors", "accumulated errors", "errors.Error, exc.Exception")], ["Errorf", "Chain", "Join", "Error", "String"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
