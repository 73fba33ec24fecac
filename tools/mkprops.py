#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so statements stay reviewable)."""
import json, os
H='include/fast_containers/'
BT=[H+'btree.hpp',H+'btree.ipp',H+'dense_map.hpp',H+'dense_map.ipp']
POOL=[H+'hugepage_pool.hpp']
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a)
L=[]
L.append(P('C01','Trees act as sorted unique-key maps over any interleaved history',
 'For every interleaved history of operations on several trees, every call returns exactly what a sorted map with one element per comparator-equivalence class would return, and size, emptiness, lookups, bounds and full iteration agree with that map after every operation. This holds for every search mode, comparator, key type, node size and allocator, and however the memory behind the trees is granted, grown or recycled. Operations on one tree never change another tree, even when they draw memory from the same pools.',
 ['histories','configurations','inputs'],'all operation histories over several trees sharing memory, all search modes, comparators (including ones whose equivalence is coarser than ==), key types, node sizes and allocators',
 'Tests run fixed short scripts on one tree at a time, mostly ascending or descending keys; splits, borrows and merges at several levels combined with recycled memory of other trees are sampled by a handful of cases.',
 BT+[H+'dense_map_simd.ipp'],[('separator search',H+'btree.ipp find_leaf_for_key'),('split/borrow/merge',H+'btree.ipp split_leaf_and_insert, handle_underflow'),('separator maintenance',H+'btree.ipp update_parent_key_recursive')],
 [('size_','number of elements',H+'btree.hpp'),('internal children keys','lower bound of each subtree',H+'btree.hpp internal_node')],['return values of the public tree API','forward and reverse iteration']))
L.append(P('C02','An insertion that runs out of memory has no effect',
 'If memory cannot be obtained at any point inside an insertion (insert, emplace, try_emplace, insert_or_assign, indexing), the call throws and the tree holds exactly the elements it held before, in order, with previously obtained iterators and references still valid. Once memory is available again the same insertion succeeds and the tree continues to work normally.',
 ['fault_sequences','histories'],'every position of a failed memory request inside every insertion, in every tree shape, with one-off and persistent refusals',
 'No test makes an allocation fail; the split path with several allocations at different levels is never interrupted.',
 BT,[('allocation before modification',H+'btree.ipp insert_impl, split_leaf_and_insert, insert_into_parent, split_internal')],
 None,['exception from the insertion','contents, iterators and references afterwards']))
L.append(P('C03','An exception from a user type during insertion has no effect',
 'If copying or constructing a value, or copying a key, throws at any point inside an insertion, the exception reaches the caller and the tree is exactly as it was before: same elements, same values, iterators and references still valid. Try-emplacing an existing key constructs no value, and inserting an existing key leaves its stored key and value untouched. (Moves and destructors are assumed not to throw; comparisons are the subject of another property.)',
 ['fault_sequences','histories'],'every throwing position among the copies and constructions made by every insertion, in every tree shape',
 'Tests use types that never throw; only success paths are exercised.',
 BT,[('value obtained before shifting or splitting',H+'btree.ipp insert_impl, split_leaf_and_insert'),('array insertion',H+'dense_map.ipp insert_impl')],
 None,['exception from the insertion','contents afterwards','number of values constructed']))
L.append(P('C26','A key comparison that throws has no effect',
 'In builds without assertions (assertions compare keys on their own account): if the comparator throws at any point inside an operation on a tree or an array map - an insertion of any form, a lookup, an erasure, construction from a range - the exception reaches the caller and the container holds exactly the elements it held before, with the same values and in order, and nothing is leaked. (Iterators may be invalidated, as they would by the operation\'s success.) Of an erasure of a range, some elements from its front may be gone, and only those. The container keeps working normally afterwards.',
 ['fault_sequences','histories'],'every throwing position among the comparisons made by every insertion, lookup and erasure, in every tree shape',
 'Tests use comparators that never throw; that every comparison of an insertion that splits or of an erasure that rebalances comes before its first effect is never observed.',
 BT,[('comparisons before the first effect',H+'btree.ipp insert_impl, find_leaf_for_key, erase'),('comparisons before the first effect',H+'dense_map.ipp insert_impl, erase, lower_bound_index')],
 None,['exception from the operation','contents and lookups afterwards']))
L.append(P('C27','What does not change membership leaves references and iterators valid',
 'An operation that neither inserts nor erases an element of a container - an insertion of a key already present in any form, insert_or_assign and operator[] on a present key, lookups, walks, copies made from it, an erasure that removes nothing - leaves every reference and iterator into it valid and pointing at the same element, however full the node involved is; and operations on one container never disturb another. Arguments may refer to elements of the container operated on: the values inserted, assigned or looked up are those the arguments had at the call.',
 ['histories'],'every operation history, in every tree shape and with every node fill, with references held across each operation and arguments aliasing elements',
 'Tests hold no references across operations that happen not to insert and pass no argument that lives inside the container; a node split or a slide made before the key is known to be absent gives the same contents.',
 BT,[('existing key found before the node is touched',H+'btree.ipp insert_impl, insert_or_assign, operator[]'),('existing key found before the slide',H+'dense_map.ipp insert_impl, insert_or_assign')],
 None,['references and iterators obtained before the operation','contents afterwards']))
L.append(P('C28','What adds nothing needs no memory',
 'Lookups, iteration, erasure in every form with all the rebalancing it causes, clear, swap, move construction, move assignment between equal or propagating allocators, insertion of a key already present, assignment to a present element, destruction of a container and giving blocks back to a pool work with full effect while every request for memory is refused, by the allocator, the heap and the system alike: a program that has run out of memory can always look up, remove and release. (Elements whose own copies need memory are exempt, and so is the exception object of at() on an absent key.)',
 ['histories','fault_sequences'],'every operation history and tree shape with all memory refused during any of these operations',
 'Tests never refuse memory during an erasure or a lookup; a temporary container, a node obtained before it is known to be needed or an allocation in a release path makes no difference while memory is plentiful.',
 BT+[H+'hugepage_pool.hpp',H+'multi_size_hugepage_pool.hpp'],[('rebalancing in place',H+'btree.ipp handle_underflow, borrow/merge'),('existing key found before nodes are obtained',H+'btree.ipp insert_impl'),('intrusive free list',H+'hugepage_pool.hpp deallocate')],
 None,['success of the operation under refusal','contents afterwards']))
L.append(P('C29','An insertion that does not happen leaves its arguments alone',
 'An insertion that stores nothing - because the key is already present (try_emplace, an array map\'s insert_hint), because the array map is full, or because it fails for want of memory or by an exception from copying a key - leaves every argument it was given as it was, also those passed as rvalues, so that the same call can be repeated with them: a value handed over with std::move is either stored or still the caller\'s. Arguments passed as lvalues are never changed by any insertion. An element-wise move assignment that fails loses no element: each is whole in one of the two trees. (emplace, which builds its pair first, is exempt, and so are comparisons that throw.)',
 ['histories','fault_sequences'],'all tree and map states, insertion forms, present and absent keys, and failures at any allocation or key copy',
 'Tests pass fresh temporaries and never look at them again; taking the value a few lines earlier, before the last step that can fail, passes all of them and loses data exactly when memory runs out.',
 BT,[('value taken last',H+'btree.ipp insert_impl, split_leaf_and_insert'),('value taken last (array map)',H+'dense_map.ipp insert_impl, insert_hint, try_emplace'),('element-wise move',H+'btree.ipp operator=(btree&&)')],
 None,['arguments after the call','elements of both trees after a failed move assignment']))
L.append(P('C04','Stored objects and nodes live and die exactly once, and die promptly',
 'Over any history, including operations that fail, every key, value and node the library creates is destroyed exactly once and its memory is given back exactly once, to an allocator equal to the one it came from and with the size it was requested with. The resources of an element are released as soon as the element is erased, cleared, overwritten or its container goes away: at every moment exactly the elements present own live values. Nothing is leaked once all containers are gone.',
 ['histories','fault_sequences'],'all operation histories with failures injected at any allocation, copy or construction',
 'Tests check contents, not object lifetimes; leaks on failure paths and resources retained in vacated slots are invisible to them.',
 BT,[('node construction/destruction',H+'btree.ipp allocate_*/deallocate_*'),('slot vacation',H+'dense_map.ipp erase, clear, split_at, transfer_*')],
 None,['live-object registry of instrumented key/value types','instrumented allocator and global heap']))
L.append(P('C05','Copy, move and swap transfer elements and memory ownership correctly',
 'Copying yields an independent tree; moving and swapping hand over the elements without touching them, so references to elements stay valid, and leave a moved-from tree empty and usable. Memory always returns to the pool it came from, whatever mix of copies, moves, assignments and swaps between trees with equal or different allocators came before and in whatever order trees, allocators and pools are destroyed. Where elements are handed over (move construction, swap, and move assignment between equal or propagating allocators) moving never fails or terminates the program, even when memory is exhausted.',
 ['histories','configurations','fault_sequences'],'all histories of copies, moves, assignments, swaps and destructions over trees with shared and separate pools, with memory exhausted at any moment',
 'Tests move or swap trees that use the default allocator or one shared allocator, and never under memory exhaustion or with pools of different lifetime.',
 BT+[H+'hugepage_allocator.hpp',H+'multi_size_hugepage_allocator.hpp',H+'policy_based_hugepage_allocator.hpp'],
 [('allocator hand-over',H+'btree.ipp move constructor/assignment, swap'),('allocator propagation traits',H+'*_allocator.hpp')],
 None,['contents of both trees','addresses of elements','simulated memory map and allocator ledger']))
L.append(P('C06','Iterating and erasing while iterating visit every element exactly once',
 'In every tree state, walking forwards visits all elements in comparator order, walking backwards (by decrement or by reverse iterators) visits exactly the reverse, and any mixture of increments and decrements lands where it would in a sorted sequence. Erasing through an iterator or an iterator range removes exactly those elements and returns the position of the element that followed, so a loop that erases selectively visits every element exactly once however the tree rebalances meanwhile.',
 ['histories'],'all tree states reachable by histories of insertions and erasures, all walk patterns and erase patterns',
 'Tests erase a few positions in small trees; the returned successor depends on which of borrow/merge from either sibling happens at each level.',
 BT,[('successor tracking',H+'btree.ipp erase, borrow_from_*_sibling, merge_with_*_sibling'),('leaf chain',H+'btree.hpp iterator, reverse_iterator')],
 None,['returned iterators','walk sequences']))
L.append(P('C07','Concurrent readers of one tree or array map never interfere',
 'Any number of threads may run read-only operations (lookups, bounds, membership, size, element access, forward and reverse iteration; taking a copy of a tree that uses std::allocator; asking the pool behind the tree for its reports) on the same tree at once, and lookups and iteration on the same array map, under any interleaving: each returns what it would return alone, and none of them writes to memory another thread accesses without synchronisation.',
 ['schedules'],'all interleavings of memory accesses of several reader threads on one tree, array map or pool',
 'All tests are single-threaded; a cache or lazy update introduced behind a const operation would pass all of them.',
 BT+[H+'dense_map_simd.ipp',H+'multi_size_hugepage_pool.hpp'],[('read paths do not modify the tree',H+'btree.ipp find, find_leaf_for_key, lower_bound; '+H+'btree.hpp iterators'),('read paths do not modify the map or the pool',H+'dense_map.ipp find, lower_bound; '+H+'multi_size_hugepage_pool.hpp get_pool, using_hugepages')],
 None,['results per thread','memory accesses per thread']))
L.append(P('C08','Separate containers on separate threads never interfere',
 'Threads that each work on their own trees, maps, allocators and pools (nothing shared) never influence one another under any interleaving: each obtains the results and the contents it would obtain alone, and no memory is accessed by two of them without synchronisation.',
 ['schedules'],'all interleavings of memory accesses of several threads each using containers and pools of its own',
 'All tests are single-threaded; hidden shared state (a static buffer, counter or free list) would pass all of them.',
 BT+POOL+[H+'multi_size_hugepage_pool.hpp',H+'hugepage_allocator.hpp',H+'policy_based_hugepage_allocator.hpp'],[('no static or global mutable state','all headers')],
 None,['results per thread','memory accesses per thread']))
L.append(P('C09','Live pool blocks are disjoint, aligned, fully usable and stay put',
 'Every block a pool hands out, until it is given back, lies entirely inside memory the pool currently has mapped, honours the requested alignment and is at least as large as requested, for any mix of sizes, alignments, pool and growth sizes. No two live blocks overlap, and the pool never writes into a live block.',
 ['histories','inputs'],'all histories of allocations and releases with arbitrary sizes, power-of-two alignments, initial sizes and growth sizes, on any placement of mappings',
 'Tests allocate one size per pool and check alignment of a few pointers; mixed sizes, large alignments and requests larger than the growth size are not combined.',
 POOL,[('bump allocation and growth',H+'hugepage_pool.hpp allocate, grow'),('free list',H+'hugepage_pool.hpp allocate, deallocate')],
 None,['returned addresses against the simulated memory map','contents of live blocks']))
L.append(P('C10','A pool the system refuses memory fails cleanly and recovers',
 'When the operating system refuses memory during pool creation or growth, the operation throws std::bad_alloc, nothing is leaked, every live block, the reported remaining capacity and the pool\'s other observable state are unchanged, and allocations that need no new memory still succeed. As soon as memory is granted again the pool works as if nothing had happened; the reported remaining capacity never exceeds what is really left and a request that fits in it needs nothing from the system.',
 ['fault_sequences','histories'],'every sequence of grants and refusals of mappings and of heap memory during pool histories',
 'Tests never see a refused mapping after construction; the real system always grants.',
 POOL,[('growth',H+'hugepage_pool.hpp grow'),('creation',H+'hugepage_pool.hpp HugePagePool')],
 None,['exceptions, bytes_remaining, simulated memory map']))
L.append(P('C11','Huge-page use degrades transparently and is reported truthfully',
 'When huge pages are unavailable, at creation or at any later growth, pools silently continue on ordinary pages with no visible difference in behaviour; huge pages are requested only if asked for, again at each growth of a pool that has them. What pools report about using huge pages is true: exactly when the pool\'s initial memory (for a multi-size pool: that of any of its pools) was really granted as huge pages.',
 ['fault_sequences','configurations'],'every sequence of huge-page grants and refusals at creation and growth',
 'The test machine grants huge pages always or never; the transitions between the two are not reachable in tests.',
 POOL+[H+'multi_size_hugepage_pool.hpp',H+'hugepage_allocator.hpp'],[('fallback',H+'hugepage_pool.hpp HugePagePool, grow'),('report',H+'hugepage_pool.hpp using_hugepages; '+H+'multi_size_hugepage_pool.hpp using_hugepages')],
 None,['flags of simulated mmap calls','using_hugepages']))
L.append(P('C12','Released blocks are reused before fresh memory is consumed',
 'A request for which an earlier block of the same size and alignment has been given back is served from such a block: it consumes no fresh pool capacity and asks the system for nothing. Hence a pool\'s footprint is bounded by the peak of what was simultaneously in use, however long allocation and release go on.',
 ['histories'],'all histories of allocations and releases, including long-running churn and trees that fill and empty repeatedly',
 'Tests free and reallocate a few blocks once; a slowly leaking free list shows only over long mixed histories.',
 POOL+[H+'multi_size_hugepage_pool.hpp'],[('free list',H+'hugepage_pool.hpp allocate, deallocate')],
 None,['bytes_remaining and simulated mmap calls around each allocation']))
L.append(P('C13','Mapped memory is returned to the system exactly once, complete, never early',
 'Every mapping a pool obtains is unmapped exactly once with its exact extent, no later than when the last pool owner (pool handle, allocator copy or container) disappears, and never while any owner is left or any element in it can still be reached. This includes mappings obtained just before a failure.',
 ['histories','fault_sequences'],'all orders of destruction of pools, allocators, rebound allocators and containers, with failures at any point of pool creation or growth',
 'Tests cannot see mappings; a wrong length, a leaked region or a premature unmap goes unnoticed until memory runs out.',
 POOL+[H+'hugepage_allocator.hpp',H+'multi_size_hugepage_allocator.hpp',H+'policy_based_hugepage_allocator.hpp'],[('region list',H+'hugepage_pool.hpp ~HugePagePool'),('shared ownership',H+'*_allocator.hpp')],
 None,['simulated memory map']))
L.append(P('C25','Pools serve the capacity they were given before asking the system for more',
 'A pool starts with at least its initial size mapped and grows by at least its growth size (the documented defaults where none is given; for a two-pool allocator each pool has its own sizes, for a multi-size pool every class has them, a rebound allocator\'s pool has those of its origin). As long as the requests served since then, each counted with its worst-case alignment padding, fit into that size, further requests succeed without asking the system for memory - also when the system would refuse.',
 ['histories','inputs','fault_sequences'],'all histories of requests, releases and growth with arbitrary sizes, alignments, initial and growth sizes, in every refusal state of the system',
 'Tests check that a pool grows at some point; that it does not grow early, waste its region or lose the rest of it on some path is visible only by accounting over a whole history.',
 POOL+[H+'hugepage_allocator.hpp',H+'multi_size_hugepage_pool.hpp',H+'policy_based_hugepage_allocator.hpp'],[('bump allocation and growth',H+'hugepage_pool.hpp allocate, grow'),('sizes handed on',H+'policy_based_hugepage_allocator.hpp make_two_pool_allocator; '+H+'hugepage_allocator.hpp rebinding constructor')],
 None,['simulated memory map against an account of the capacity promised']))
L.append(P('C14','Multi-size pools keep size classes apart and serve every size',
 'For any history of requests of any sizes, each block has at least the requested size and alignment, is recycled only for requests of the same size class, and returns to the class it came from; a request that fails changes nothing, not even which classes exist, and impossible requests throw instead of returning a short block. The classes reported as active are exactly those that have served a request, each with a pool of its own.',
 ['histories','fault_sequences','inputs'],'all histories of requests of mixed sizes, counts and alignments with refusals at any point',
 'Tests request each class a few times in order; interleaved release and reuse across neighbouring classes and failures while a class is created are not covered.',
 [H+'multi_size_hugepage_pool.hpp',H+'multi_size_hugepage_allocator.hpp',H+'hugepage_pool.hpp'],[('class routing',H+'multi_size_hugepage_pool.hpp allocate, deallocate')],
 None,['returned blocks, get_pool, get_pools, active_size_classes']))
L.append(P('C15','Pool statistics equal the true allocation history',
 'With statistics enabled, the reported allocation and release counts, lifetime bytes, current and peak usage and growth events equal those of the real history at every moment, whatever failures occur in between: failed operations count nothing, growths are counted exactly when new memory was added, and the peak is the maximum of the current usage.',
 ['histories','fault_sequences'],'all histories of allocations, releases, growths and failures',
 'Tests compare the counters for a few straight-line sequences without failures.',
 POOL+[H+'hugepage_allocator.hpp',H+'policy_based_hugepage_allocator.hpp'],[('counters',H+'hugepage_pool.hpp stats')],
 None,['get_allocations, get_deallocations, get_bytes_allocated, get_current_usage, get_peak_usage, get_growth_events']))
L.append(P('C16','Two-pool trees keep leaf and internal nodes in their own pools',
 'With the two-pool policy, every leaf node of every tree sharing the policy is allocated from and returned to the leaf pool and every internal node the internal pool, through any history of trees of the same or different types, copies, moves, swaps and failures. Elements therefore always live in leaf-pool memory, and a refusal of memory in one pool never consumes or corrupts the other.',
 ['histories','configurations','fault_sequences'],'all histories of several trees of one or more types sharing one policy, with growth and refusals in either pool',
 'Tests check that both pools are used by one tree; they do not follow every block back to its pool.',
 [H+'policy_based_hugepage_allocator.hpp',H+'hugepage_pool.hpp']+BT[:2],[('routing by node kind',H+'policy_based_hugepage_allocator.hpp TwoPoolPolicy')],
 None,['pool statistics, element addresses against simulated regions']))
L.append(P('C17','Huge pages are touched at creation, placing them on the creating node',
 'Every huge page a pool obtains is first touched by the thread that creates or grows the pool, before the triggering call returns, so that its placement follows that thread\'s NUMA node and never a later user\'s. Pre-touching changes no contents and touches only pages of the new mapping.',
 ['schedules','histories','fault_sequences'],'all interleavings of pool creation, growth and use by threads on different nodes, for any region size',
 'Tests cannot observe page placement; the effect is invisible in a functional test.',
 POOL,[('pre-faulting',H+'hugepage_pool.hpp allocate_hugepages_region')],
 None,['first access to each simulated page, with the simulated node of the accessing thread']))
L.append(P('C18','The array map is a bounded sorted map whose failed operations change nothing',
 'Over any history the fixed-capacity array map returns what a sorted map bounded by its capacity would return, for every search mode and key type. An operation that cannot complete (array full, split or transfer that does not fit or asks for too much, an exception from copying or constructing an element) throws and leaves all maps involved unchanged. Splits and transfers move exactly the requested elements, keep order on both sides and lose or duplicate nothing.',
 ['histories','fault_sequences','inputs'],'all histories of insertions, erasures, splits and transfers over several maps of different capacity, with exceptions at any copy or construction',
 'Tests check a few capacity errors; contents after a mid-operation exception and long chains of splits and transfers are not covered.',
 [H+'dense_map.hpp',H+'dense_map.ipp',H+'dense_map_simd.ipp'],[('shift and assign',H+'dense_map.ipp insert_impl, operator[]'),('bulk moves',H+'dense_map.ipp split_at, transfer_prefix_from, transfer_suffix_from')],
 None,['return values, exceptions, contents']))
L.append(P('C19','Tree memory follows its contents: nodes stay filled and are given back',
 'After any history of insertions and erasures, every node except the root is at least about three eighths full (half its capacity less a quarter of that half), so the number of live nodes and the depth are bounded in terms of the number of elements. Nodes that are no longer needed are given back by the operation that made them superfluous; an emptied tree holds at most one node.',
 ['histories','fault_sequences'],'all histories of insertions, erasures, range erasures and clears, interrupted by failed insertions',
 'Tests look at contents only; a tree that stops merging or borrowing properly is still correct but grows without bound under churn.',
 BT[:2],[('underflow handling',H+'btree.ipp handle_underflow, handle_parent_after_merge'),('hysteresis',H+'btree.hpp leaf_hysteresis, internal_hysteresis')],
 None,['live nodes per tree in the instrumented allocator']))
L.append(P('C20','A copy, bulk build or clear that fails leaves no damage',
 'If copying a tree, assigning one, building one from a range or list, or clearing one fails part-way because memory runs out or an element copy throws, the source is unchanged, nothing is leaked or freed twice, and a tree being assigned to remains a valid tree holding only elements it or the source had. It can be used, assigned again and destroyed normally afterwards.',
 ['fault_sequences','histories'],'every failing position inside copy construction, copy assignment, range construction and clear, for trees of any shape',
 'No test makes a copy fail.',
 BT[:2],[('copy construction and assignment',H+'btree.ipp'),('clear',H+'btree.ipp clear')],
 None,['both trees after the failure','allocator ledger']))
L.append(P('C21','SIMD, linear and binary search agree on every array',
 'For every array of a supported primitive key type, in any state a history of insertions, erasures, splits, transfers and copies leaves it in (whatever remains in the slots beyond its end), and for every probe, the vectorised, linear and binary searches give the same position, the one the order of the keys defines. This covers every key width, signed, unsigned and floating point keys, both orders, every fill and capacity, and extreme key values.',
 ['histories','inputs'],'all histories of array maps and tree nodes over primitive keys, all probes',
 'Tests sample a few freshly built arrays; which stale keys lie beyond the end and how a fill meets the vector width depends on everything done before.',
 [H+'dense_map_simd.ipp',H+'dense_map.ipp'],[('vector search',H+'dense_map_simd.ipp simd_lower_bound_*')]))
L.append(P('C22','Size-class and node-size functions are total, monotone and sufficient',
 'The size-class function maps every size to a class at least as large, monotonically, and the default node sizes respect their documented bounds for all key and value sizes.',
 ['inputs'],'all sizes',
 'Tests sample sizes; the property is a pure compile-time computable function.',
 [H+'multi_size_hugepage_pool.hpp',H+'btree.hpp'],[('size class',H+'multi_size_hugepage_pool.hpp get_size_class'),('heuristics',H+'btree.hpp default_leaf_node_size, default_internal_node_size')]))
L.append(P('C23','Lookups and updates cost logarithmic time',
 'Lookup, insertion and erasure touch a number of nodes logarithmic in the number of elements, and begin, end, size, swap and moves into an empty tree take constant time. Advancing an iterator over k elements, or erasing them as a range, costs no more than k such steps; so does copying a tree of k elements. Clearing or destroying a tree takes time linear in its nodes.',
 ['histories'],'all histories',
 'Tests do not count work; benchmarks measure wall time on one machine.',
 BT[:2],[('balanced depth',H+'btree.ipp')]))
L.append(P('C24','An erasure that fails has no effect',
 'If copying a key throws, or memory for it runs out, at any point inside an erasure (by key, iterator or range, at any depth of rebalancing), the exception reaches the caller and the tree still finds exactly the elements that were not erased yet, in order: a single erasure has removed nothing, a range erasure only elements from the front of its range. The same erasure succeeds afterwards and the tree continues to work normally, with its nodes as full as after any other history.',
 ['fault_sequences','histories'],'every failing key copy inside erasures from trees of any shape, with keys that own memory or throw from their copy',
 'No test makes a key copy fail during an erasure, and the rebalancing that copies keys needs a particular fill state of a node, its siblings and its ancestors.',
 BT[:2],[('erase',H+'btree.ipp erase'),('underflow handling',H+'btree.ipp handle_underflow, borrow_from_left_sibling, merge_with_left_sibling'),('separator updates',H+'btree.ipp update_parent_key_recursive')],
 None,['exceptions, contents and lookups after the failure','live nodes per tree']))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L: jsonschema.validate(p,s)
print(len(L),'properties')
