#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
D = "include/boost/intrusive/"
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[D+f for f in files],
            state=[dict(name=a, meaning=b, where=D+c) for a,b,c in state],
            mechanism=[dict(name=a, where=D+b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook))
props = []
props.append(P("C01", "list behaves exactly like a sequence of references",
 "After any sequence of legal operations on doubly linked lists (push/pop at both ends, insert, erase, range and whole splice, shift, sort, merge, reverse, unique, remove, assign, swap), every list contains exactly the objects a reference sequence would contain, in the same order, both when walked forwards and backwards. Sort and merge are stable, and every operation returns the iterator or reference the documentation promises. This holds for every link mode, with and without constant-time size, also when a splice moves elements within the same list.",
 ["histories","inputs","configurations"],
 "all operation histories over two lists and a bounded set of objects with repeated keys; all container options",
 "The tests run a handful of fixed vectors of 5 to 40 values through each member once; they never compare against a model after arbitrary histories, nor cover all positions, equal-key patterns and self-splices.",
 ["list.hpp","circular_list_algorithms.hpp","detail/list_iterator.hpp"],
 [("link/unlink/transfer/stable_partition/swap_nodes/reverse/move_*","circular_list_algorithms.hpp"),("sort/merge/unique/remove_if","list.hpp")],
 [("circular ring through header","order of the sequence","circular_list_algorithms.hpp")],
 ["list public API"]))
props.append(P("C02", "slist behaves exactly like a sequence of references",
 "After any sequence of legal operations on singly linked lists (push/pop, insert/erase before and after a position, range and whole splice, shift, sort, merge, reverse, unique, remove, assign, swap), every list contains exactly the objects a reference sequence would contain, in the same order, and previous() agrees with that order. This holds for circular and linear lists, with and without a cached last element, with and without constant-time size; when the last element is cached, back(), last() and push_back always act on the true last element. Sort and merge are stable, empty lists included.",
 ["histories","inputs","configurations"],
 "all operation histories over two singly linked lists and a bounded set of objects with repeated keys; all linear/cache_last/size options",
 "The tests call each member once on short fixed lists; stale cached last pointers or wrong end handling only show after particular sequences (e.g. moving the last element within one list, emptying by range) that no test performs.",
 ["slist.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","detail/common_slist_algorithms.hpp","detail/slist_iterator.hpp"],
 [("transfer_after/unlink_after/move_*/reverse/stable_partition","detail/common_slist_algorithms.hpp"),("last-node maintenance","slist.hpp")],
 [("cached last node","must always designate the true last element","slist.hpp")],
 ["slist public API"]))
props.append(P("C03", "Ordered containers hold exactly the inserted objects, sorted",
 "After any history of insertions, removals, replacements, splaying, rebalancing and merges, every ordered container (red-black, AVL, scapegoat, splay, treap, plain binary; unique and multi) contains exactly the objects inserted and not removed, and walking it forwards yields them sorted by the comparison while walking backwards yields the exact reverse. Erasing by position, range or key removes exactly the designated objects and returns the documented successor or count. Minimum, maximum, first and last element are always the true ones.",
 ["histories","inputs","configurations"],
 "all reachable tree shapes up to a node bound, all operations applied at every position of each shape",
 "Tests build a few fixed trees (<= 100 elements with one random order); a wrong link in one rotation or erase case appears only in particular shapes.",
 ["bstree.hpp","bstree_algorithms.hpp","rbtree.hpp","rbtree_algorithms.hpp","avltree.hpp","avltree_algorithms.hpp","sgtree.hpp","sgtree_algorithms.hpp","splaytree.hpp","splaytree_algorithms.hpp","treap.hpp","treap_algorithms.hpp","set.hpp","avl_set.hpp","sg_set.hpp","splay_set.hpp","treap_set.hpp","bs_set.hpp"],
 [("insert/erase with header fix-up","bstree_algorithms.hpp"),("rebalance_after_*","rbtree_algorithms.hpp"),("rebalance_after_*","avltree_algorithms.hpp")],
 [("tree links and header (root, leftmost, rightmost)","membership and order","bstree_algorithms.hpp")],
 ["ordered container public API"]))
props.append(P("C04", "Ordered lookups return exactly what a sorted reference would",
 "In every reachable state of every ordered container, find, count, lower_bound, upper_bound, equal_range and bounded_range (with every combination of open and closed ends) return exactly the positions and counts that a linear scan of the sorted elements defines, for keys below, between, equal to and above the stored ones. The overloads taking a foreign key type with a compatible comparison, including comparisons that only partition the container, agree with the same definition, in const and non-const form. Lookups never add, lose or reorder elements.",
 ["histories","inputs","configurations"],
 "every reachable tree shape up to a bound x every assignment of equal keys x every query key and bound combination",
 "Tests query one or two keys in one fixed container; duplicate groups spanning subtrees and exclusive bounds at the extremes are not enumerated.",
 ["bstree_algorithms.hpp","bstree.hpp","splaytree_algorithms.hpp","splaytree.hpp","treap.hpp","sgtree.hpp"],
 [("lower_bound/upper_bound/equal_range/bounded_range/find loops","bstree_algorithms.hpp"),("splaying lookups","splaytree_algorithms.hpp")],
 [], ["ordered container lookup members"]))
props.append(P("C05", "Insertion into ordered containers obeys uniqueness, stability and hints",
 "A unique insertion succeeds exactly when no equivalent element exists, and otherwise changes nothing and returns the position of the existing equivalent element; insert_check with a foreign key decides the same, and the following insert_commit or hinted insertion places the object at its sorted position. In multi containers an insertion without hint goes after all equivalent elements, and an insertion with hint goes as close to the hint as the order allows (immediately before it when that keeps the order). Positional insertions (before a position, at the front, at the back) place the object exactly there, and merging two containers keeps destination elements before equivalent source elements, transfers exactly what uniqueness allows and leaves the rest in the source.",
 ["histories","inputs","configurations"],
 "every reachable shape x every key pattern with duplicates x every key x every hint position",
 "Tests use few hints (begin/end) on fixed data; wrong hints and hints inside runs of equivalent keys are not enumerated.",
 ["bstree_algorithms.hpp","bstree.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","sgtree.hpp","splaytree_algorithms.hpp","treap_algorithms.hpp","treap.hpp"],
 [("insert_unique_check/insert_equal_*_check/insert_before_check/transfer_*","bstree_algorithms.hpp")],
 [], ["insert*, insert_check/commit, insert_before, push_back/front, merge"]))
props.append(P("C06", "Balanced trees stay balanced after every history",
 "After any history of public operations, red-black containers satisfy the red-black rules (root black, no red node with a red child, equal black height), AVL containers have sibling heights differing by at most one with correct balance factors, and scapegoat containers never exceed the height their balance factor allows for the largest size since the last full rebuild. In a splay container a mutating lookup brings an element with the searched key (or a neighbour of the key when it is absent) to the root, and a positional insertion or splay_up brings that very element to the root. An explicit rebalance of a binary, splay or scapegoat container, or of one of its subtrees, produces minimal height without changing the order.",
 ["histories","inputs","configurations"],
 "all reachable shapes up to a node bound under all insertions and erasures, plus bulk operations",
 "Balance violations do not change results, only cost; tests check invariants on one or two small trees and the cases of deletion rebalancing need specific colourings.",
 ["rbtree_algorithms.hpp","avltree_algorithms.hpp","sgtree.hpp","sgtree_algorithms.hpp","splaytree_algorithms.hpp","bstree_algorithms.hpp","detail/math.hpp","detail/rbtree_node.hpp","detail/avltree_node.hpp"],
 [("rebalance_after_insertion/erasure","rbtree_algorithms.hpp"),("rebalance_after_insertion/erasure","avltree_algorithms.hpp"),("h_alpha / rebalance_subtree","sgtree_algorithms.hpp"),("vine compression","bstree_algorithms.hpp")],
 [("colour / balance factor","per-node balance data","detail/rbtree_node.hpp")],
 ["root(), go_left/go_right, node traits"]))
props.append(P("C07", "Treap keeps heap order on priorities",
 "After any history of insertions (plain, hinted, positional, checked), erasures, merges and swaps, in every treap no element has a priority ordered before its parent's, and the top element always has the highest priority in the container. The key order is kept at the same time, for arbitrary key/priority combinations including equal priorities and a priority given by a separate function. A positional insertion or commit that honours the key order keeps the heap order as well.",
 ["histories","inputs","configurations"],
 "all permutations and ties of priorities over all insertion/erasure histories up to a bound",
 "Tests use one fixed priority relation (priority derived from the same value); key/priority combinations are not enumerated.",
 ["treap.hpp","treap_algorithms.hpp","treap_set.hpp","priority_compare.hpp"],
 [("rotate_up_n / rebalance_after_insertion_check / erasure rotations","treap_algorithms.hpp")],
 [], ["treap::top, root and child iterators"]))
props.append(P("C08", "Unordered containers hold and find exactly what was inserted",
 "After any history of insertions (plain, checked and committed), erasures by position, range, key or foreign key, and clears, an unordered container contains exactly the objects inserted and not removed; iteration visits each exactly once with equivalent elements adjacent; and find, count, equal_range (also through foreign key, hash and equality) agree with a linear scan. Unique insertion succeeds exactly when no equivalent element is present and otherwise returns the existing one. This holds for every combination of hash storage, multi-key grouping, cached begin, bucket indexing policy, bucket array form and collision pattern.",
 ["histories","inputs","configurations"],
 "all histories over a bounded object set x all hash-collision patterns x all container option combinations",
 "Tests use one or two hash functions over <= 20 fixed values; group and cached-begin maintenance depend on bucket neighbourhoods and orders of erasure that are not enumerated.",
 ["hashtable.hpp","unordered_set.hpp","detail/hashtable_node.hpp","unordered_set_hook.hpp"],
 [("group insertion/erasure","hashtable.hpp"),("bucket sentinel iteration","detail/hashtable_node.hpp"),("begin cache","hashtable.hpp")],
 [("bucket chains, groups, cached begin","membership","hashtable.hpp")],
 ["unordered_set/multiset public API"]))
props.append(P("C09", "Rehashing preserves contents and bucket placement",
 "Any rehash, full or incremental, growing or shrinking, into a new bucket array or a larger or smaller prefix of the same one, preserves exactly the set of elements, their equivalence groups and all references; afterwards every element is found and lies in the bucket its hash designates. Incremental growth and shrink steps are refused exactly when the limits are reached, keep the documented split count, and undo each other. Stored hash values are used instead of recomputing, and bucket(), bucket_size() and the per-bucket iterators always describe one partition of the elements.",
 ["histories","inputs","configurations"],
 "all histories of insert/erase/rehash/incremental_rehash over bounded objects, hash patterns and bucket counts",
 "Tests rehash a 6-element container to a few sizes once; split positions, groups that straddle, same-array and partially populated cases are not enumerated.",
 ["hashtable.hpp","unordered_set.hpp"],
 [("rehash_impl / incremental_rehash / full_rehash","hashtable.hpp"),("split traits","hashtable.hpp")],
 [("split count, bucket array","bucket placement","hashtable.hpp")],
 ["rehash, incremental_rehash, full_rehash, split_count, bucket*, local iterators"]))
props.append(P("C10", "size() and empty() always tell the truth",
 "In every container and configuration, after any history of single, range, whole-container and bulk operations, size() equals the number of elements reached by iterating from begin to end and empty() is equivalent to size() being zero. This holds on both sides of every operation that moves elements between two containers (swap, move, splice, merge, clone), also when an operation is refused or moves nothing. Containers without constant-time size report the same values as those with it, whatever size type is chosen.",
 ["histories","configurations"],
 "all histories over pairs of containers of each family with and without constant-time size",
 "Tests compare size() after a few operations; size bookkeeping is spread over dozens of members and only drifts in combinations (self splice, partially refused merge, counted range erase).",
 ["detail/size_holder.hpp","list.hpp","slist.hpp","bstree.hpp","sgtree.hpp","treap.hpp","splaytree.hpp","hashtable.hpp"],
 [("size_holder increments in each mutator","detail/size_holder.hpp")],
 [("stored size","element count","detail/size_holder.hpp")],
 ["size(), empty()"]))
props.append(P("C11", "Safe-link hooks track membership and expose misuse",
 "With safe-link hooks, an object's is_linked() is true exactly while the object is in a container through that hook: it becomes false after every erase, pop, clear, remove, unique, range erase, assignment, rejected insertion and container destruction, and the object can then be inserted again. Inserting an object that is already linked, or destroying a linked safe-link hook, always triggers the configurable assertion and never a legal operation does. A container never leaves an object linked after its own destruction.",
 ["histories","inputs","configurations"],
 "all histories over every container family with safe-link base and member hooks; every misuse attempted in every reachable state",
 "Tests check is_linked after one or two operations per container; each removal path must reset the hook and each insertion path must check it, in every state.",
 ["detail/generic_hook.hpp","link_mode.hpp","detail/assert.hpp","list.hpp","slist.hpp","bstree.hpp","hashtable.hpp","detail/node_cloner_disposer.hpp"],
 [("init on erase, inited/unique assertion on insert","list.hpp"),("hook destructor check","detail/generic_hook.hpp")],
 [("hook default state","not linked","detail/generic_hook.hpp")],
 ["hook.is_linked(), BOOST_INTRUSIVE_SAFE_HOOK_*_ASSERT"]))
props.append(P("C12", "Auto-unlink hooks leave their container cleanly at any time",
 "At any point of any history, calling unlink() on an auto-unlink hook, or destroying the object, removes exactly that object from whatever container holds it and leaves the container valid: same remaining elements, same order, tree balance intact, size and lookups consistent. On an object in no container both are harmless no-ops. This holds for lists, singly linked lists, all tree families that support it and unordered containers, including the first, last and only element and members of groups of equivalent elements.",
 ["histories","inputs","configurations"],
 "every element of every reachable container state is unlinked and destroyed in turn",
 "Tests unlink a few elements of fixed containers; removal without a container reference must fix header, balance and bucket/group links in every structural case.",
 ["detail/generic_hook.hpp","bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","treap_algorithms.hpp","splaytree_algorithms.hpp","circular_list_algorithms.hpp","circular_slist_algorithms.hpp","hashtable.hpp","unordered_set_hook.hpp"],
 [("static unlink(node)","bstree_algorithms.hpp"),("unordered group unlink","detail/hashtable_node.hpp")],
 [], ["hook.unlink(), hook destructor, then container API"]))
props.append(P("C13", "Disposers run exactly once per removed element, after unlinking",
 "Every erasing operation that takes a disposer calls it exactly once for each element it removes, never for an element it keeps, and in the documented traversal order where one is documented; at the time of the call the element is already unlinked, so the disposer may destroy it or insert it into another container. Afterwards the container no longer touches the disposed objects and remains valid. Clearing, range erasure, erasure by key, conditional removal, unique, dispose-and-assign and cloning all obey this.",
 ["histories","inputs","configurations"],
 "every disposing member applied at every position/range/key of every reachable state, with disposers that poison, and that re-insert elsewhere",
 "Tests use a disposer that counts or does nothing on one fixed container; use-after-dispose and double disposal need element memory to be invalidated in each structural case.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","hashtable.hpp","treap.hpp","sgtree.hpp","splaytree.hpp","detail/node_cloner_disposer.hpp","detail/simple_disposers.hpp"],
 [("*_and_dispose members","list.hpp"),("dispose_subtree / clear_and_dispose","bstree_algorithms.hpp")],
 [], ["disposer call log, poisoned element memory"]))
props.append(P("C14", "A throwing user functor never corrupts a container",
 "If a comparison, hash, equality, priority or predicate function supplied by the user throws at any call during any operation that is not documented as no-throw, the containers involved stay valid and usable afterwards: consistent iteration, correct size, correct lookups. A failed single-element insertion leaves the container unchanged with the object not linked; a failed lookup leaves all elements in place. A failed rehash loses no object irrecoverably: its elements are either still in the container or properly unlinked.",
 ["fault_sequences","histories","configurations"],
 "every operation in every reachable state with the exception injected at every functor call",
 "Tests never throw from functors in these operations; the set of throw points is different in each state.",
 ["bstree.hpp","bstree_algorithms.hpp","treap.hpp","treap_algorithms.hpp","sgtree.hpp","splaytree.hpp","hashtable.hpp","list.hpp","slist.hpp","detail/exception_disposer.hpp"],
 [("check-then-commit insertion","bstree_algorithms.hpp"),("rehash rollback","hashtable.hpp"),("stable_partition exception path","circular_list_algorithms.hpp")],
 [], ["container state after the exception"]))
props.append(P("C15", "Cloning yields an equal, independent container or cleans up",
 "clone_from first disposes every element the destination held, then produces one clone per source element in an equal container with the same order, the same structure-independent lookups, the same comparison/hash functors and the right size, and leaves the source untouched (or, when cloning from an rvalue, hands the cloner mutable references to source elements). If the cloner throws at any point, every clone made so far is disposed exactly once, the destination is left empty and reusable and the source unchanged. This holds for every container family and for source and destination bucket arrays of different sizes.",
 ["histories","fault_sequences","configurations"],
 "every reachable source state x several destination states x every cloner failure point",
 "Tests clone one fixed container without failure; the failing call index and source structure are quantified here.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","treap.hpp","sgtree.hpp","hashtable.hpp","detail/exception_disposer.hpp","detail/node_cloner_disposer.hpp"],
 [("clone_subtree","bstree_algorithms.hpp"),("clone rollback","detail/exception_disposer.hpp")],
 [], ["clone_from, cloner and disposer logs"]))
props.append(P("C16", "Swap, move and move-assignment exchange whole containers",
 "Swapping two containers of the same type, in any pair of states including empty ones and self-swap, exchanges exactly their elements, sizes, comparison/hash functors and bucket arrays without touching element objects otherwise; references to elements (and, for lists and ordered containers, iterators) stay valid and follow their elements into the other container. Move construction leaves the source empty and usable and the target holding everything in order, and move assignment is a swap. All subsequent operations on both containers behave as if the elements had been there from the start.",
 ["histories","configurations"],
 "all pairs of reachable states of each container family, followed by all single operations",
 "Tests swap two fixed non-empty containers; header back-links (root, extremes, cached last, cached begin) must be fixed in each emptiness/size combination.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","hashtable.hpp","circular_list_algorithms.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","sgtree.hpp","treap.hpp"],
 [("swap_tree / swap_nodes / swap_trailing_nodes","bstree_algorithms.hpp"),("priv_swap_cache_last","slist.hpp")],
 [], ["swap, move construction, move assignment"]))
props.append(P("C17", "Iterators obtained from elements or containers stay correct",
 "Operations never invalidate iterators or references to elements that stay in a container (for unordered containers: references only, across rehash, swap and move): they still designate the same object and, dereferenced, incremented and decremented, move along the current order. An iterator obtained from a reference to a contained object (iterator_to and its static and local forms) equals the one reached by traversal; the container recovered from an end iterator (or, for trees, from any iterator) is the right one; reverse, const and value-initialised iterators compare and convert as documented. Range and position arguments accepted as const iterators return iterators to the same elements.",
 ["histories","configurations"],
 "every element of every reachable state, before and after every operation",
 "Tests check iterator_to for a few elements; validity after arbitrary histories is not observed.",
 ["list.hpp","slist.hpp","bstree.hpp","hashtable.hpp","detail/list_iterator.hpp","detail/slist_iterator.hpp","detail/tree_iterator.hpp","detail/iterator.hpp","detail/bstree_algorithms_base.hpp","detail/iiterator.hpp","detail/hashtable_node.hpp"],
 [("next_node/prev_node","detail/bstree_algorithms_base.hpp"),("container_from_*","bstree.hpp")],
 [], ["iterators"]))
props.append(P("C18", "Node algorithms keep their contracts on every shape",
 "The documented node-level algorithms (for circular and linear lists and for all tree kinds), used directly with user-defined node traits, keep their contracts on every reachable structure: linking, unlinking, transferring, swapping two nodes (in the same or different structures, adjacent or not), replacing a node by an outside node, swapping whole structures, finding the header or root from any node, counting, and unlinking the leftmost node without rebalancing. Order, size and, for balanced trees, colours or balance factors are exactly those implied by the operation. Nodes not involved keep their relative order.",
 ["histories","inputs","configurations"],
 "every reachable shape x every node or pair of nodes (same structure, two structures)",
 "Tests do not call swap_nodes/replace_node for all relative positions (parent/child, siblings, root, extremes, two trees); each has its own link fix-up.",
 ["bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","treap_algorithms.hpp","splaytree_algorithms.hpp","sgtree_algorithms.hpp","circular_list_algorithms.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","detail/common_slist_algorithms.hpp"],
 [("swap_nodes/replace_node","bstree_algorithms.hpp"),("swap_nodes","circular_list_algorithms.hpp")],
 [], ["node algorithm static functions"]))
props.append(P("C19", "Fancy pointers work like raw ones and make containers relocatable",
 "Containers whose hooks use a user-defined pointer type behave identically to raw-pointer ones for every history. With a self-relative pointer type the whole structure is position independent: a bitwise copy of the memory region holding the container and its elements at another address is a fully working container with the same contents, on which every operation gives the same result. All links are stored through that pointer type, none as a raw address.",
 ["histories","configurations"],
 "every reachable state of each container family is relocated and all operations continue on the copy",
 "The tests use a bounded pointer in fixed scenarios and one shared-memory example at one address; no state is ever relocated.",
 ["pointer_traits.hpp","pointer_rebind.hpp","pointer_plus_bits.hpp","detail/rbtree_node.hpp","detail/avltree_node.hpp","detail/hashtable_node.hpp","hashtable.hpp","slist.hpp","list.hpp","bstree.hpp"],
 [("pointer_traits rebinding","pointer_traits.hpp"),("pointer_plus_bits","pointer_plus_bits.hpp")],
 [], ["container API on the relocated image"]))
props.append(P("C20", "One object in several containers at once stays independent",
 "An object with several hooks (base hooks with different tags, member hooks, hooks of different kinds) can be in one container per hook at the same time, and operations through one hook never change the membership, order or structure seen through another hook, nor any other byte of the object. A single any-hook lets an object be in any one container kind at a time, and moving it from one kind of container to another leaves no trace of the previous membership.",
 ["histories","configurations"],
 "all interleaved histories over a list, a tree and an unordered container sharing the same objects",
 "Tests insert into one container at a time; cross-talk through a wrong hook, tag or offset only shows when memberships are combined and checked on both sides.",
 ["any_hook.hpp","detail/any_node_and_algorithms.hpp","detail/generic_hook.hpp","detail/hook_traits.hpp","options.hpp","detail/parent_from_member.hpp","parent_from_member.hpp"],
 [("hook tags","detail/generic_hook.hpp"),("any node traits","detail/any_node_and_algorithms.hpp")],
 [], ["all containers sharing objects; canary bytes in objects"]))
props.append(P("C21", "Concurrent readers and disjoint containers never race",
 "Const operations (iteration, const lookups, size, empty, comparisons, is_linked) write no memory shared with other threads, so any interleaving of concurrent readers of one container gives each the sequential result, also for splay containers. Operations on two different containers with different elements touch disjoint memory, so any interleaving of threads using different containers is race free and equivalent to running them one after another. No hidden global or shared static state is written by any operation.",
 ["schedules","histories","configurations"],
 "all interleavings of two readers / two writers on different containers, in every reachable state",
 "All tests are single threaded; a benign-looking cached value, silent store or shared static cannot be seen by them.",
 ["bstree.hpp","splaytree.hpp","list.hpp","slist.hpp","hashtable.hpp","detail/size_holder.hpp","bstree_algorithms.hpp"],
 [("const lookups without splaying","splaytree.hpp"),("per-container size storage","detail/size_holder.hpp")],
 [], ["memory access footprints of every operation"]))
props.append(P("C22", "Documented complexity bounds hold in every state",
 "Operations documented as constant time (pushes, pops, insert/erase at a position in lists, begin/end/size where promised, iterator_to, swap, commit of a checked insertion, positional links) access a number of nodes and call a number of user functors bounded by a constant independent of the number of elements. Lookups, insertions and erasures in red-black, AVL and scapegoat containers use a number of comparisons logarithmic in the number of elements; unordered lookups examine only the elements of one bucket. Committing a checked insertion calls no comparison or hash function.",
 ["histories","inputs","configurations"],
 "every reachable state up to the bound and large parametric states; counts measured through user-supplied node traits and functors",
 "Tests check results, never cost; a change from constant to linear time passes them all.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","sgtree.hpp","hashtable.hpp"],
 [("header caches leftmost/rightmost/last/begin","bstree_algorithms.hpp"),("rotations amortised","rbtree_algorithms.hpp")],
 [], ["counting node traits and functors"]))
props.append(P("C23", "Container comparisons are the lexicographical ones",
 "For any two containers of the same type in any states, ==, !=, <, >, <=, >= on lists, singly linked lists and ordered containers return exactly the lexicographical comparison of the element sequences, and == on unordered containers returns true exactly when both hold the same number of elements and each equivalence class of one has an equal counterpart in the other, whatever the insertion order and bucket counts. The results are mutually consistent and comparing never modifies either container.",
 ["histories","inputs","configurations"],
 "all pairs of reachable states of each container family",
 "Tests compare a few fixed pairs; prefix, empty, equal-length and duplicate-group cases are not enumerated.",
 ["list.hpp","slist.hpp","bstree.hpp","hashtable.hpp","detail/algorithm.hpp"],
 [("algo_equal / algo_lexicographical_compare","detail/algorithm.hpp"),("unordered equality","hashtable.hpp")],
 [], ["relational operators"]))
props.append(P("C24", "Layout and hook options never change observable behaviour",
 "The same history of operations gives the same observable results whatever hook kind (base, member, function, custom value traits with or without state), link mode, storage optimisation (size-optimised tree nodes, compact balance bits, stored hash, multi-key grouping), key extractor, size type or header placement is configured. Options documented as pure optimisations differ only in cost or memory. Forward-compatible helper types that package the same options yield containers with the same behaviour.",
 ["configurations","histories"],
 "every configuration replays every history of the reference exploration",
 "Tests exercise a few typedefs per container on the same fixed data; the product of options and histories is not covered.",
 ["options.hpp","pack_options.hpp","detail/get_value_traits.hpp","detail/hook_traits.hpp","trivial_value_traits.hpp","derivation_value_traits.hpp","member_value_traits.hpp","detail/is_stateful_value_traits.hpp","detail/rbtree_node.hpp","detail/avltree_node.hpp","pointer_plus_bits.hpp","detail/tree_value_compare.hpp","detail/key_nodeptr_comp.hpp","detail/ebo_functor_holder.hpp"],
 [("proto_value_traits appliers","detail/get_value_traits.hpp"),("compact nodes","detail/rbtree_node.hpp")],
 [], ["public API of each configuration"]))
props.append(P("C25", "Bucket-count suggestions and bucket indexing are exact",
 "For every requested number, the suggested upper bucket count is the smallest provided count not below it (the largest provided when none is) and the suggested lower count is the largest not above it (the smallest provided when none is). For every hash value and bucket count, every indexing policy (modulo, mask for powers of two, fast modulo, incremental split) designates an existing bucket, the same one for equal hashes; the mask policy designates the same bucket as plain modulo of the same count, and so does fast modulo for every hash value of up to 32 bits (wider values are first folded to 32 bits). A container never places or looks for an element outside the bucket range it was given.",
 ["inputs","configurations"],
 "all provided counts and their neighbourhoods x an exhaustive small hash range plus boundary hashes, all policies",
 "Tests call the suggestion functions on a few values; the fast-modulo constants have one entry per prime and one wrong digit affects only some hashes.",
 ["hashtable.hpp","unordered_set.hpp","detail/math.hpp"],
 [("prime list, fastmod constants, hash_to_bucket(_split)","hashtable.hpp")],
 [], ["suggested_*_bucket_count, bucket()"]))
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in props: f.write(json.dumps(p) + "\n")
    print(len(props), "properties;", max(len(p["title"]) for p in props), "max title")
