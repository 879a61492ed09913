#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
R='src/jstd/hashmap/robin_hash_map.h'
G15=['src/jstd/hashmap/group15_flat_map.hpp','src/jstd/hashmap/group15_flat_table.hpp','src/jstd/hashmap/flat_map_group15.hpp','src/jstd/hashmap/flat_map_iterator15.hpp']
G16=['src/jstd/hashmap/group16_flat_map.hpp','src/jstd/hashmap/group16_flat_table.hpp','src/jstd/hashmap/flat_map_group16.hpp','src/jstd/hashmap/flat_map_iterator.hpp']
SH=['src/jstd/hashmap/map_slot_policy.h','src/jstd/hashmap/slot_policy_traits.h','src/jstd/hashmap/flat_map_slot_policy.hpp','src/jstd/hashmap/group_quadratic_prober.hpp']
ALL=[R]+G15+G16+SH
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or 'public API of the container / function results',hook_needed=False)))
M=lambda n,w: dict(name=n,where=w)
S=lambda n,m,w: dict(name=n,meaning=m,where=w)
WHY='The suite runs benchmark-style loops over a few integer and string key streams and checks sizes/sums; it never enumerates operation orders, so an answer that is wrong only after a particular history of inserts, erases, growth and lookups is not observed. '
hist='every finite history of insert, emplace, try_emplace, operator[], insert_or_assign, find, count, contains, at, erase, clear, reserve, rehash and shrink calls, over every choice of keys, key/value types and hash functions'
p('P01','robin_hash_map behaves as a map on every operation history',
 'After any history of public operations a robin_hash_map holds exactly the key/value associations that a mathematical map would hold after the same history. Every lookup, size, return value and iteration agrees with that map: no entry is lost, duplicated, resurrected or given another key\'s value, and no operation touches memory outside the container.',
 ['histories','inputs'],hist,WHY,[R]+SH[:3],
 [M('robin-hood insert / displacement',R),M('backward-shift erase',R),M('find probe loop bounded by the stored distance',R),M('rehash',R)],
 [S('ctrl array','distance (and hash bits) per slot',R),S('slots','stored pairs',R)])
p('P02','group15_flat_map behaves as a map on every operation history',
 'After any history of public operations a group15_flat_map holds exactly the key/value associations that a mathematical map would hold after the same history. Every lookup, size, return value and iteration agrees with that map: no entry is lost, duplicated, resurrected or given another key\'s value, and no operation touches memory outside the container.',
 ['histories','inputs'],hist,WHY,G15+SH,
 [M('group match + overflow byte',G15[2]),M('find_index / find_empty_to_insert / erase / rehash',G15[1])],
 [S('group metadata','15 hash bytes + overflow byte per group',G15[2]),S('slot_size_/slot_threshold_','population and growth limit',G15[1])])
p('P03','group16_flat_map behaves as a map on every operation history',
 'After any history of public operations a group16_flat_map holds exactly the key/value associations that a mathematical map would hold after the same history. Every lookup, size, return value and iteration agrees with that map: no entry is lost, duplicated, resurrected or given another key\'s value, and no operation touches memory outside the container.',
 ['histories','inputs'],hist,WHY,G16+SH,
 [M('group match + overflow bits',G16[2]),M('find_index / find_empty_to_insert / erase / rehash',G16[1])],
 [S('group metadata','16 bytes of 7-bit hash + overflow bit',G16[2]),S('slot_size_/slot_threshold_','population and growth limit',G16[1])])
p('P04','Lookups stay correct under colliding and adversarial hash placement',
 'Correctness of lookup, insertion and removal never depends on how well the user\'s hash function spreads keys: keys that share a home position, share metadata bits, or wrap past the end of the table are all found while present and not found once erased. Erasing one member of a collision chain never hides or corrupts another member, and no chain is allowed to run outside the table.',
 ['histories','inputs'],'every assignment of home positions and hash-fragment values to a small key set, and every order of inserting and erasing those keys, including chains crossing the end of the table and groups filled to capacity',
 'Tests use std::hash on sequential or random integers and short strings; long chains, wrap-around, equal fragments and reserved fragment values occur only by chance and no erase order inside a chain is enumerated.',
 ALL,[M('robin-hood distance bookkeeping and backward shift',R),M('overflow marking and probe sequence','src/jstd/hashmap/group_quadratic_prober.hpp'),M('hash fragment computation',G16[2])])
p('P05','Iteration visits each element exactly once; erase returns the successor',
 'Iterating from begin to end (mutable or const) visits every stored element exactly once and nothing else, for every reachable state. Erasing through an iterator removes exactly the designated element and returns a position from which the not-yet-visited survivors are each visited, so erase-while-iterating, range erase, erasure by a sequence of keys and erase_if remove exactly the selected elements and report how many they removed where they report a count.',
 ['histories'],'every reachable occupancy pattern of small tables, every iterator position in it, and every subset of elements selected for erasure while iterating',
 'The suite only sums values in one forward pass over freshly filled maps; erase(iterator) and erase_if are never instantiated.',
 ALL,[M('iterator increment / next used slot',G16[3]),M('iterator increment / next used slot',G15[3]),M('basic_iterator',R),M('erase(iterator)/erase(first,last)',R)])
p('P06','Copies, moves and swaps preserve contents and independence',
 'A copy (constructed or assigned) has the same contents as its source and the two evolve independently afterwards; a move or swap transfers exactly the contents, and the moved-from map is a valid map that can be used, reassigned or destroyed. Self-assignment and self-swap change nothing, and assignment releases what the target held before.',
 ['histories','configurations'],'every pair of reachable source/target states, every copy/move/swap form (with and without an explicit allocator, equal and unequal allocators), and every follow-up operation on either object',
 'No existing test copies, moves or swaps any of the maps.',
 ALL,[M('copy/move constructors and assignment',R),M('copy/move constructors and assignment',G15[1]),M('copy/move constructors and assignment',G16[1]),M('swap_content',R)])
p('P07','Capacity requests preserve contents and give the promised room',
 'reserve, rehash, shrink_to_fit, max_load_factor and clear never change which elements are stored (clear empties the map) and always leave capacity for them. After reserve(n), inserting until the map holds n elements causes no reallocation, and in the group maps no element moves, so references stay valid there (robin_hash_map moves elements on insertion and may grow early when a probe sequence would exceed its lookup limit). The load reported never exceeds one, for any load factor asked for. A request that cannot be met is reported by an exception and leaves the container unchanged.',
 ['histories','inputs'],'every interleaving of capacity calls with insertions and erasures at every size around each capacity boundary, and every requested capacity in range',
 'Tests call reserve only once before filling; shrinking, re-reserving below the size and changing load factors are not exercised.',
 ALL,[M('reserve/rehash/shrink_to_fit',R),M('reserve/rehash/shrink_to_fit',G15[1]),M('reserve/rehash/shrink_to_fit',G16[1]),M('power of two rounding','src/jstd/support/Power2.h')])
p('P08','Every element is constructed and destroyed exactly once; memory is returned',
 'For every history, each key and value object created inside a container is destroyed exactly once, never used after destruction, and never assigned or read before construction; when the container is destroyed or cleared nothing it held remains alive. Every block obtained from the allocator is returned exactly once to an equal allocator with the size it was requested with.',
 ['histories','configurations'],'every operation history to the bound, with element types that record each construction, assignment and destruction, for trivially copyable, copyable, heap-owning and over-aligned elements and move-only mapped values, and a recording allocator',
 'The test suite uses ints and strings without leak or double-free detection and never counts object lifetimes.',
 ALL,[M('slot construct/transfer/destroy','src/jstd/hashmap/map_slot_policy.h'),M('destroy/clear/rehash',R),M('destroy/clear/rehash',G15[1]),M('destroy/clear/rehash',G16[1])])
p('P09','A failing insertion, allocation or user function leaves the map consistent',
 'If an allocation, an element constructor, a hash or a comparison throws during any operation, the exception reaches the caller, nothing leaks, and the container remains a valid, fully usable map. A single-element insertion that fails because an allocation or the construction of the new element failed leaves the contents exactly as before; any other failure leaves each element either present with its own value or absent, never duplicated or mixed up. Element moves are assumed not to throw.',
 ['fault_sequences','histories'],'every operation, from every reachable small state, with a failure injected at every individual allocation, construction, hash and comparison it performs',
 'No test injects any failure; only exhaustive injection at each fault point of each operation can reach these paths.',
 ALL,[M('insert/emplace: metadata set before construction',G15[1]),M('create_slots',R),M('rehash',G16[1])])
p('P10','Insertion forms honour their overwrite, move and argument contracts',
 'insert, emplace and try_emplace never change the value of a key already present and report false; insert_or_assign and assignment through operator[] always do; each reports an iterator to the element with that key. Arguments passed as lvalues are never modified, try_emplace leaves rvalue arguments untouched when the key exists, missing keys get value-initialised mapped values from operator[], and range or list insertion inserts every element of the range in order.',
 ['inputs','histories'],'every insertion form, every value category of its arguments, key present or absent, with and without growth being triggered, for every small state',
 'Tests call insert/emplace with rvalue pairs of ints and only look at size; argument state and the present-key path are never checked.',
 ALL,[M('emplace_impl overloads',G15[1]),M('emplace_impl overloads',G16[1]),M('emplace/insert_or_assign/try_emplace',R)])
p('P11','Operations terminate and memory stays bounded under insert/erase churn',
 'Every operation returns, for every history. A container whose number of live elements stays below a bound keeps a bounded capacity no matter how many elements are inserted and erased over its life, and its load never exceeds one. (In robin_hash_map the bound also depends on how the hash function places the keys, because a table grows when a probe sequence would exceed its lookup limit.)',
 ['histories'],'every insert/erase history, in particular arbitrarily long churn at constant size, at full load of the smallest table and just below each growth threshold',
 'Tests erase each element once after a single fill; long churn at constant population, where overflow marks and thresholds drift, is never run.',
 ALL,[M('slot_threshold_ adjustment on erase/reuse',G15[1]),M('slot_threshold_ adjustment on erase/reuse',G16[1]),M('growth decision',R)])
p('P12','Empty, default, cleared and moved-from maps support every operation',
 'A map that was never filled, was default or zero-capacity constructed, was cleared (in either mode), was reduced by reserve(0)/shrink, or was moved from, behaves as an empty map for every operation: lookups miss, begin equals end, erase removes nothing, clear and copies succeed, and insertions work as on a fresh map.',
 ['histories'],'every way of reaching an empty map, followed by every operation and every pair of operations',
 'Tests never operate on an empty or never-allocated map other than filling it.',
 ALL,[M('default empty metadata / destroy',R),M('default_empty_groups',G15[1]),M('default_empty_groups',G16[1])])
HF=['src/jstd/hasher/hashes.h','src/jstd/hasher/hash_crc32.h','src/jstd/hasher/hash_helper.h','src/jstd/hasher/fnv1a.h','src/jstd/hasher/sha1.h']
p('P13','String hashing depends only on content and reads only the given bytes',
 'Each byte-string hash function and hasher object returns the same value for equal byte sequences wherever they are stored, whatever their alignment and whatever bytes surround them, and reads no byte outside the given range. The functions that implement a published algorithm (CRC-32C, BKDR, times-31, AP, DJB, LevelDB-style) return that algorithm\'s value, and equal keys hash equally: text held as different string types, and numbers that compare equal (0.0 and -0.0).',
 ['inputs','configurations'],'every length up to several words past each unrolling boundary, every alignment, every surrounding byte pattern, and exhaustive contents for short lengths',
 'No test calls the hash functions directly; the maps only use them on NUL-terminated std::string data at one alignment.',
 HF,[M('tail handling in intel_crc32_x64','src/jstd/hasher/hash_crc32.h'),M('HashUtils / OpenSSL_Hash / BKDRHash','src/jstd/hasher/hashes.h'),M('HashHelper specialisations','src/jstd/hasher/hash_helper.h')])
p('P14','Bit scans, counts and power-of-two rounding match their definitions',
 'The bit-scan, leading/trailing-zero, population-count and lowest/highest-bit helpers return the mathematically defined result for every valid argument of their width. The run-time and compile-time power-of-two helpers (is_pow2, prev, round_down, round_to, round_up, next, log2) return the documented value for every argument in range, and the two families agree where both are defined alike. The integer logarithms jm_log10_u32 and jm_log10_u64 are the number of decimal digits less one for every argument.',
 ['inputs'],'all 8- and 16-bit arguments, and for 32/64-bit every value with at most three bits set or cleared and every value around each power of two',
 'power2_test checks a fixed list of small arguments of a few helpers only.',
 ['src/jstd/support/BitUtils.h','src/jstd/support/Power2.h','src/jstd/math/log10_int.h'],[M('bsf/bsr/popcnt/ls1b/ms1b','src/jstd/support/BitUtils.h'),M('round_up/next_pow2/...','src/jstd/support/Power2.h')])
p('P15','Metadata group matching agrees with a byte-by-byte scan',
 'For every content of a metadata group, the vectorised match for a hash fragment, for empty and for used positions reports exactly the positions a byte-by-byte scan reports, and marking a position used or empty or setting an overflow mark changes only that position or mark. Lane insert/extract helpers return and change exactly the addressed lane.',
 ['inputs'],'every position, every fragment value, every overflow state, and every occupancy mask of a group',
 'Tests never call the group primitives directly and cannot see a wrong bit that merely costs an extra comparison or hides an element in rare contents.',
 [G15[2],G16[2],'src/jstd/support/BitVec.h'],[M('match_hash/match_empty/match_used/overflow',G15[2]),M('match_hash/match_empty/match_used/overflow',G16[2]),M('mm256_extract/insert','src/jstd/support/BitVec.h')])
p('P16','string_view compares, slices and hashes like the text it refers to',
 'Equality, ordering and compare of string views agree with lexicographic comparison of the referred text by unsigned character for every pair of texts (including embedded zero bytes, prefixes and empty views), and form a consistent total order. Construction, substr, copy, at and element access refer to exactly the requested characters and report out-of-range positions; equal views hash equally, so they are interchangeable with std::string as keys.',
 ['inputs'],'every pair of texts over a small alphabet (including 0x00, 0x7f, 0x80, 0xff) up to a length covering every unrolled compare path, every position/count argument, every alignment',
 'Tests use string views only as map keys through ==; ordering, slicing and boundary arguments are never checked.',
 ['src/jstd/string/string_view.h','src/jstd/string/string_utils.h','src/jstd/string/string_stl.h','src/jstd/string/string_libc.h','src/jstd/string/string_traits.h','src/jstd/string/string_iterator.h'],[M('compare/is_equal/operators','src/jstd/string/string_view.h'),M('StrEqual/StrCmp','src/jstd/string/string_utils.h')])
p('P17','Random generators produce the reference sequence and respect ranges',
 'For every seed (and seed array) the Mersenne-twister generators produce the published MT19937 / MT19937-64 output sequence, and reseeding restarts it. Bounded draws always lie inside the inclusive range asked for, whichever order the bounds are given in, and floating draws lie in their documented interval.',
 ['inputs','histories'],'every position through several state regenerations for every seed of a structured set, every order of reseed/draw calls to a depth, and every small range plus ranges at the type limits',
 'The generators are only used to shuffle benchmark keys; their output is never checked.',
 ['src/jstd/system/MT19937_32.h','src/jstd/system/MT19937_64.h','src/jstd/system/RandomGen.h'],[M('init / next_state / tempering','src/jstd/system/MT19937_32.h'),M('nextInteger(min,max)','src/jstd/system/RandomGen.h')])
p('P18','Integer hash mixing is deterministic, total and loses no keys',
 'The integer mixing functions compute the arithmetic they are defined by (full-width multiply and fold, golden-ratio multiply) for every argument, identically on every call, and the integer hashers are functions of the value only. The hash policies map every hash to a valid index for every table capacity they are configured for.',
 ['inputs','configurations'],'all structured 64-bit arguments (at most three bits set or cleared, neighbours of powers of two, all 16-bit halves), every capacity the policy can be configured for',
 'Tests only see aggregate timing of maps that use these functions.',
 ['src/jstd/hasher/hashes.h','src/jstd/hasher/hash_helper.h'],[M('mum_mul_mix / mum_hash / fibonacci_hash','src/jstd/hasher/hashes.h'),M('fibonacci_hash_policy / mum_hash_policy','src/jstd/hasher/hashes.h')])
for pid,n,h,w in (('P19','flat16_hash_map','flat16_hash_map.h',['find_impl / find_or_prepare_insert (probe until an empty slot)','erase_slot (deleted or empty mark)','rehash_impl']),('P20','robin16_hash_map','robin16_hash_map.h',['find_impl / find_or_prepare_insert (distances)','insert_to_place (displacement, mirrored control bytes)','erase_slot (backward shift around the end)','rehash_impl'])):
    p(pid,n+' behaves as a map on every operation history',
 'For every finite sequence of operations on '+n+' objects - construction (also from a range or list), every insertion form, operator[], assignment of mapped values, removal by key, iterator, range or predicate, clear, reserve, rehash, shrink_to_fit, max_load_factor, copy and move construction, swap - every lookup, reported result, size and iteration agrees with a reference map: stored keys are found with their latest values, others are not, iteration shows each element exactly once and the position returned by an erasure leads to every element behind it. Every operation returns, every stored element is created and destroyed exactly once, and all memory is returned when the map is destroyed.',
 ['inputs','histories'],'all histories to a depth from every fill around the growth points, for twelve families of hash codes including identical ones',
 'The stable tests do not use this container at all; only the benchmarks do.',
 ['src/jstd/hashmap/'+h],[M(x,'src/jstd/hashmap/'+h) for x in w])
p('P21','string_view_array owns its elements on every history',
 'For every finite sequence of calls on string_view_array objects - push_back (also of a null element), pop_back, clear, resize, reserve, copy and move construction, copy(), swap, and exchanging or assigning elements through operator[] and at() - size, order, front, back, at (which throws for a position out of range), operator[] and iteration (also of a const array) agree with a list of values; a copy has equal elements of its own, also when the source has null elements; and every element given to an array or made by it is alive exactly as long as it is in an array: it is destroyed once, when it is removed, cleared, cut off or its array is destroyed. A copy that fails because copying an element throws leaves the target as it was and loses nothing.',
 ['inputs','histories'],'all histories of calls up to a depth from empty and filled arrays, with elements that are counted, views and strings',
 'No test uses the class; the benchmarks never look at what is leaked.',
 ['src/jstd/string/string_view_array.h'],[M('destroy / clear / pop_back / resize','src/jstd/string/string_view_array.h'),M('copy_impl / swap_impl','src/jstd/string/string_view_array.h')])
p('P22','Every constructor and list assignment builds exactly the requested map',
 'A map built by any constructor overload - default, capacity, hasher, equality, allocator, iterator range (forward or single-pass), initializer list, and every combination the class offers - or assigned from a list holds exactly the first occurrence of each key in the input with its value, hashes and compares with the hasher and equality it was given, takes its memory from the allocator it was given, and has at least the requested capacity when one is asked for; an impossible capacity is refused by an exception. Afterwards it behaves like any other map, and so do copies of it.',
 ['inputs','configurations'],'every constructor overload and list form, every capacity around each growth step, every sequence of keys with repetitions to a length, and growth, removal and copying afterwards',
 'The tests default-construct every map; no other constructor is instantiated.',
 ALL,[M('constructors','src/jstd/hashmap/robin_hash_map.h'),M('constructors',G15[1]),M('constructors',G16[1]),M('constructors',G15[0]),M('constructors',G16[0])])
p('P23','All lookup overloads and all positions of a map agree with each other',
 'In every reachable state the lookup overloads of a map agree, for const and non-const maps: find, contains, count, at (which throws exactly for absent keys), equal_range, and lookups by a type the key is convertible from, report the same presence and refer to the same stored element. Positions can be copied, assigned, converted to const positions, compared and, where the iterator offers it, stepped forward and backward: equal positions designate the same element, stepping visits the same elements in both directions, and writing through a position changes only the mapped value of that element.',
 ['histories','inputs'],'every state reached by histories over a set of fills and hash-code families, every stored and absent key of the key set, every position of the container',
 'The tests use find, count and contains on non-const maps with keys of the exact type; const lookups, at, equal_range and backward steps are not instantiated.',
 ALL,[M('find / find_index / at / equal_range','src/jstd/hashmap/robin_hash_map.h'),M('find / at / equal_range',G15[1]),M('find / at / equal_range',G16[1]),M('iterators',G15[3]),M('iterators',G16[3])])
p('P24','Range, exchange and alignment helpers agree with their definitions',
 'The range and memory helpers do exactly what they are defined to do, in every supported language mode and with assertions on or off. A reversed position designates the element before its base, steps and compares in the opposite order, and stays consistent under every sequence of steps; advance, next, prev and distance land on, or count, exactly the elements between two positions for every category of iterator, without stepping outside the range; size, empty, data, begin, end and their constant and reversed forms describe the container, array or list they are given; swap, exchange and swap_ranges exchange exactly the given values, also for arrays, pointers and move-only types and when a value is exchanged with itself; rounding up to an alignment gives the smallest multiple that is not smaller, and an alignment test is exact; a value built from a tuple is constructed from exactly the elements of the tuple.',
 ['inputs','histories'],'every sequence of steps of a reversed position to a depth, every pair of positions of every category in ranges to a length, every pair of values, every pair of sub-ranges, every power-of-two alignment with every number near a power of two',
 'None of these helpers is called by the tests except through a container that does not use most of them.',
 ['src/jstd/iterator.h','src/jstd/memory/swap.h','src/jstd/utility/utility.h'],[M('reverse_iterator / iterator_utils / distance','src/jstd/iterator.h'),M('swap / swap_ranges','src/jstd/memory/swap.h'),M('align_to / pointer_align_to / exchange / tuple_wrapper','src/jstd/utility/utility.h')])
p('P25','Threads reading one map, and threads with their own maps, do not interfere',
 'A map can be read by any number of threads at once as long as none of them changes it: lookups, membership tests, counts, ranges, iteration, size and capacity queries and copying, through constant and non-constant access alike, write to nothing the threads share, so every thread sees exactly what it would see alone, in every state a map can be brought into (empty, cleared, shrunk, moved from, copied, full of erased positions). And maps are independent of each other: threads that create, change, copy, move, swap and destroy maps of their own share no hidden state (no common scratch memory, no common empty table that is written to, no caches), whatever operations run at the same time.',
 ['schedules','inputs','histories'],'every schedule of every pair of readers in every state up to the bounds, and of every pair of programs on two maps',
 'The tests use a single thread.',
 ['src/jstd/hashmap/robin_hash_map.h',*G15,*G16,'src/jstd/hashmap/flat16_hash_map.h','src/jstd/hashmap/robin16_hash_map.h'],[M('find / find_index / at / equal_range','src/jstd/hashmap/robin_hash_map.h'),M('default_empty_ctrls / insert_to_place','src/jstd/hashmap/robin_hash_map.h'),M('default_empty_groups / find_index',G15[1]),M('default_empty_groups / find_index',G16[1]),M('find_impl','src/jstd/hashmap/flat16_hash_map.h'),M('find_impl','src/jstd/hashmap/robin16_hash_map.h')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
