# property -> translation units (source, extra flags), and how it is described
MAPS = ['MC_ROBIN', 'MC_G15', 'MC_G16']
CHECKS = {}
META = {}

HIST = 'explicit-state model checking of the implementation: breadth-first search over operation histories executed on the real container with state deduplication, compared step by step with a reference map'
TRUST = ' Trusts the reference map, the instrumented element types, AddressSanitizer and g++ 13.'
BFS_RULE = 'breadth-first search over operation histories executed on the real container; a state is the bytes of the containers and their blocks (pointers as block+offset); a transition is one operation whose every result is compared with a reference map and after which the whole container is observed; a trace is a history that ends in a known state or at the depth bound'
ASSUME = ['element values, hash codes and allocation behaviour are those of the driver\'s alphabet', 'element moves do not throw']

for pid, m in zip(['P01', 'P02', 'P03'], MAPS):
    parts = range(7) if m == 'MC_ROBIN' else range(4)
    CHECKS[pid] = {'units': [('history.cpp', ['-D' + m, '-DMC_PART=%d' % p]) for p in parts]}
    META[pid] = dict(technique=HIST, level='model_checking', rule=BFS_RULE, assumptions=ASSUME,
        note='All histories over the stated alphabet and bounds from every start state (evidence: spaces closed / depth bounded / capped).' + TRUST)

for pid, m in zip(['P19', 'P20'], ['MC_F16', 'MC_R16']):
    CHECKS[pid] = {'units': [('legacy.cpp', ['-D' + m, '-DMC_PART=%d' % p]) for p in range(4)]}
    META[pid] = dict(technique=HIST, level='model_checking', rule='from every fill and hash pattern: breadth-first search over insertions and removals, and over an alphabet of about 90 operations (every insertion form, iterator, range and predicate erasure, clear, reserve, rehash, shrink_to_fit, max_load_factor, constructors, copies, moves, swap); probe sequences of 70..190 elements; rotating windows of elements for hundreds of steps. ' + BFS_RULE, assumptions=ASSUME,
        note='All histories over the stated alphabet and bounds from every start state (evidence: spaces closed / depth bounded / capped). Assignment operators, failing allocations and several hundred elements with one hash code are not covered.' + TRUST)

def maps(pid, src, robin, group, technique, level, rule, note):
    u = []
    for m in MAPS:
        for p in (robin if m == 'MC_ROBIN' else group): u.append((src, ['-D' + m, '-DMC_PART=%d' % p]))
    CHECKS[pid] = {'units': u}
    META[pid] = dict(technique=technique, level=level, rule=rule, assumptions=ASSUME, note=note + TRUST)

maps('P04', 'placement.cpp', [0, 1, 4], [0, 2],
     'explicit-state model checking of the implementation over every assignment of hash codes to keys',
     'model_checking', 'every multiset of hash codes from the placement alphabet is assigned to the keys; for each, the complete insert/erase state graph is searched on the real container. ' + BFS_RULE,
     'Complete state graph per hash assignment, for every assignment over the placement alphabet, from several fills; long chains up to 20 identical codes.')

maps('P05', 'erase.cpp', [0, 1, 2, 4], [0, 2, 3],
     'explicit-state model checking of the implementation: every position, range and selection erased from every start state',
     'model_checking', 'from every fill (four layouts each) every single position, every range and every selection (all subsets for small maps) is erased by iterator, range, erase_if and while iterating; the returned position must lead to every survivor. ' + BFS_RULE,
     'Complete over positions, ranges and (small maps) subsets for the stated fills and placements.')

u = []
for m in MAPS:
    for prop in (0, 1, 2, 4, 7, 8, 16):
        for t in ((0, 1) if m == 'MC_ROBIN' else (0,)):
            u.append(('copies.cpp', ['-D' + m, '-DMC_TYPES=%d' % t, '-DMC_PROP=%d' % prop]))
    for t in ((4, 10, 11) if m == 'MC_ROBIN' else (10, 2)):
        u.append(('copies.cpp', ['-D' + m, '-DMC_TYPES=%d' % t, '-DMC_PROP=0']))
CHECKS['P06'] = {'units': u}
META['P06'] = dict(technique='explicit-state model checking of the implementation over histories of two containers, for every allocator propagation choice and stateful hashers',
    level='model_checking', rule='pairs of containers (equal and unequal allocators, all propagation traits, different hasher seeds) from every start pair; every history of copies, moves, assignments, swaps and modifications up to the depth bound, after each of which both sides are observed in full and then modified. ' + BFS_RULE,
    assumptions=ASSUME, note='All histories up to the depth bound (3 in small pairs, 2 else; thorough 3).' + TRUST)

maps('P07', 'capacity.cpp', [0, 1, 4], [0, 2],
     'explicit-state model checking of the implementation: every capacity request from every start state, and every sequence of capacity calls and modifications',
     'model_checking', 'every requested count 0..140 (thorough 0..300) under every load factor choice from every start, then filled to the count with allocations counted and (group maps) element addresses compared; breadth-first search over sequences of capacity calls, insertions, removals and copies. ' + BFS_RULE,
     'Complete over the requested counts, load factors and starts stated; sequences to depth 2 (thorough 3).')

maps('P08', 'lifetime.cpp', [0, 1, 4, 5, 6, 7, 9], [0, 1, 7, 9],
     'explicit-state model checking of the implementation with elements, allocator blocks and fresh memory under observation',
     'model_checking', 'breadth-first search over histories of every operation (two containers, ranges, lists, constructors, both clear modes, copies with other allocators) with element types that record their birth, use and death by address, an allocator that records blocks by owner and size, and three contents of fresh memory. ' + BFS_RULE,
     'All histories to depth 2 (3 from the empty map; thorough 3 everywhere) over an alphabet of about 110 operations. Trivially copyable and heap-owning elements are covered by P01-P03 under AddressSanitizer.')

maps('P10', 'forms.cpp', [0, 1, 2, 3, 4, 7], [0, 1, 2, 3, 7],
     'explicit-state model checking of the implementation: every insertion form and pair of forms from every size',
     'model_checking', 'for every size 0..66 (thorough 130) and four ways of reaching it: every insertion form x key present / absent / re-inserted, every ordered pair of forms, every subset of six keys as a range or constructor argument; arguments, reported position, reported flag, mapped values and the whole container are examined. ' + BFS_RULE,
     'Complete over the stated forms, sizes and presence combinations.')

maps('P12', 'empty.cpp', [0, 1, 2, 4, 7], [0, 2, 7],
     'explicit-state model checking of the implementation from every kind of empty container',
     'model_checking', 'from 36 ways of being empty, every ordered pair of operations of an alphabet of about 110, then insertions, removals and growth on the result; thorough adds a breadth-first search to depth 4. ' + BFS_RULE,
     'Complete over the ways of being empty and operation pairs stated.')

maps('P11', 'churn.cpp', [0, 1, 4], [0, 2],
     'explicit-state model checking of the implementation: closed state graphs of insert/erase histories, and every churn program of a family run for thousands of steps',
     'model_checking', 'breadth-first search of insert/erase histories on a few keys next to a fill until no new state appears (a closed graph covers histories of any length); every rotating window of 0..63 live elements (thorough 120) with several strides and id pools for 1000 (6000) steps; repeated fill/removal cycles; capacity is compared with a bound fixed by the live population at every step; an operation that does not return within 25 s is a violation. ' + BFS_RULE,
     'Closed graphs cover unbounded histories over their alphabet (evidence: spaces_closed); windows and cycles are complete over the stated family.')

maps('P09', 'faults.cpp', [0, 1, 4, 6, 8], [0, 1, 8],
     'exhaustive fault injection into the implementation: every fault point of every operation from every start state, and a second failure on top of every state a first one left',
     'fault_enumeration', 'for every start (every fill around the growth points, with earlier removals, with a second container) and every operation of an alphabet of about 110, the fault points (allocations, element constructions and assignments, hashes, comparisons, predicate calls) are counted and then each one fails in turn; the contents are compared with those before and after an undisturbed run, leaks are counted and the container is used on. Non-trivial: a failure that left a container state not seen before.',
     'Complete over the fault points of the stated operations and starts; pairs of failures from selected starts (thorough: all up to 32 elements).')

def pure(pid, units, technique, rule, note, assumptions=(), **kw):
    CHECKS[pid] = dict(units=units, **kw)
    META[pid] = dict(technique=technique, level='exploration', rule=rule, assumptions=list(assumptions) or ['the definitions written in the check are the intended ones'], note=note)

VARIANTS = [('v1', ['-march=x86-64']), ('v3', ['-march=x86-64-v3']), ('cxx20', ['-std=c++20', '-march=x86-64-v3'])]
pure('P14', [('bits.cpp', ['-O2', '-ftemplate-depth=2000', '-DMC_VAR="%s"' % n, '-Djstd=jstd_' + n] + f) for n, f in VARIANTS],
     'exhaustive enumeration of the argument domain against bit-by-bit definitions',
     'every 32-bit number for the 32-bit scans and counts, every 8- and 16-bit number for the templates, for 64 bits every word of a structured set (up to three set or clear bits, all runs, all neighbours within 4096 of powers of two, products of boundary bytes and 16-bit fields) and all numbers in a low, middle or high window; all 2^32 arguments of the 32-bit logarithm, for the 64-bit one the structured words and every number within 5000 of a digit times a power of ten; compile-time helpers for all numbers below 1100 and around all powers of two; built for three instruction sets / language modes. Every evaluation is a distinct argument.',
     'Complete over all 2^32 arguments for the 32-bit functions (thorough: also for the 32-bit templates and 33-bit windows of 64-bit functions); 64-bit arguments outside the structured set are not covered.', asan=False, fallback=True)
ISAS = [('sse2', ['-march=x86-64']), ('avx2', ['-march=x86-64-v3']), ('avx512', ['-march=x86-64-v4'])]
pure('P15', [('groups.cpp', ['-O2', '-DMC_VAR="%s"' % n, '-Djstd=jstd_' + n] + f) for n, f in ISAS],
     'exhaustive enumeration of group contents and operations against a byte-by-byte scan',
     'group contents: every byte value at every position over 8 backgrounds, every subset of positions holding one value over another (16x16 values), every pair of values at every pair of positions; for each the empty, used and hash matches (all 256 hashes in the first family), marks, and every single change; lanes: every vector over a 12-value alphabet, every lane, every inserted value; built for SSE2, AVX2 and AVX-512 (if the CPU has it). Non-trivial: a hash query that matches at least one position.',
     'Complete over the stated content families; matching is byte-parallel, so contents with three or more distinct values add nothing a family does not show unless the code were to mix bytes.', asan=False, fallback=True)

HASHV = [('sse42', ['-march=x86-64-v2']), ('plain', ['-march=x86-64']), ('cxx20', ['-std=c++20', '-march=x86-64-v3'])]
pure('P13', [('hashing.cpp', ['-O2', '-fno-strict-aliasing', '-DMC_VAR="%s"' % n, '-Djstd=jstd_' + n, '-Drocksdb=rocksdb_' + n] + f) for n, f in HASHV],
     'exhaustive enumeration of texts, lengths and places in memory against the definitions of the hash functions',
     'for each of about fifty hash functions: every length 0..320 (thorough 1100) at every place (against a guard page on either side, every offset 0..31 in three surroundings) for four contents; every text over three alphabets up to 6, 11 and 17 characters; every value of every single byte of texts up to 70 (140) bytes over four contents; hasher objects: every text as every string type that can hold it, integers and floating numbers over a structured set. Built with SSE4.2, without, and as C++20. Non-trivial: a text that is not empty.',
     'Complete over the stated lengths, places and texts. The FNV1A family, the HashUtils primary hashes and OpenSSL_Hash on wide characters are not published algorithms: for them only purity, bounds and (primary hashes) dependence on every byte are decided.',
     asan=False, fallback=True)
MIXV = [('sse42', ['-march=x86-64-v2']), ('plain', ['-march=x86-64']), ('noint128', ['-march=x86-64-v3', '-U__SIZEOF_INT128__'])]
pure('P18', [('mixing.cpp', ['-O2', '-DMC_VAR="%s"' % n, '-Djstd=jstd_' + n, '-Drocksdb=rocksdb_' + n] + f) for n, f in MIXV],
     'exhaustive enumeration of the argument domain against digit-by-digit multiplication and bitwise CRC',
     'every 32-bit word through the one-argument mixers (thorough: also as high half and middle), every pair of about 5000 structured words through the products, every pair of 14-bit (thorough 16-bit) digits spread over both operands, every structured word (up to three set or clear bits, runs, neighbours of powers of two, products of boundary digits) through the CRC mixers, hasher objects (fourteen integer types) and, for every capacity 2..2^63, the hash policies. Built with SSE4.2, without, and without a 128-bit type. Every evaluation is a distinct argument.',
     'Complete over the stated domains; other 64-bit words are not covered. Whether a policy spreads hashes well is not decided (fibonacci_hash_policy keeps 36 bits of product: index 0 for tables up to 2^28 slots; it is selected nowhere).',
     asan=False, fallback=True)
SVV = [('stl', ['-DSTRING_UTILS_MODE=0']), ('u64', ['-DSTRING_UTILS_MODE=1']), ('sse42', ['-DSTRING_UTILS_MODE=2']), ('libc', ['-DSTRING_UTILS_MODE=3'])]
SVM = ['-DSTRING_UTILS_STL=0', '-DSTRING_UTILS_U64=1', '-DSTRING_UTILS_SSE42=2', '-DSTRING_UTILS_LIBC=3']
pure('P16', [('views.cpp', ['-O2', '-fno-strict-aliasing', '-DMC_MAPS=0', '-DMC_VAR="%s"' % n, '-Djstd=jstd_' + n] + SVM + f) for n, f in SVV]
         + [('views.cpp', ['-O2', '-fno-strict-aliasing', '-DMC_MAPS=1', '-DMC_VAR="default"']), ('views.cpp', ['-O2', '-fno-strict-aliasing', '-march=x86-64', '-DMC_MAPS=1', '-DMC_VAR="plain"', '-Djstd=jstd_plain'])],
     'exhaustive enumeration of texts, pairs of texts, positions and counts against lexicographic comparison',
     'for char, wchar_t and char16_t in each of the four comparison modes and without SSE4.2: every ordered pair of texts over alphabets of 5, 2 and 3 characters (among them zero, 0x7f, 0x80, 0xff) up to length 4, 9 and 6 (thorough 5, 11, 7); every pair of lengths up to 66 (139) apart by 0, 1, 2, 7, 8, 9, 15, 16 or 17 with a difference at every place; every position and count, in and out of range, of every pair of short texts; construction, slices, copies, iterators and output of every short text and every length to 99; every pair of texts as keys of the maps. Texts end at a guard page or lie at different offsets. Non-trivial: both texts are not empty.',
     'Complete over the stated texts and positions. Characters beyond the alphabets are not enumerated; in-place modification through a view (append, push_back, slide) is not covered.',
     asan=False)
pure('P17', [('randoms.cpp', ['-O2'])],
     'exhaustive enumeration of seeds, key arrays, call histories and raw words against the published recurrence',
     'for both Mersenne twisters: about 3500 structured seeds through three state regenerations (constructed, copied and reseeded after a varying number of draws), long runs of a million outputs, every key array length 1..1301 with four contents, every key array up to 5 words over boundary words, every history of four (thorough five) reseeding, drawing, copying and assigning steps over sixteen kinds; the reference recurrence is itself compared with std::mt19937. For bounded draws: every ordered pair of about 100 bounds per type x about 600 chosen raw words through a generator that returns them, and the real generators; for floating draws all 2^32 raw words. Every case is distinct.',
     'Complete over the stated seeds, arrays, histories and words. Seed 0 means the time and is not examined; the order of the two draws of a 64-bit number from the 32-bit twister is not fixed; bounded floating draws are examined for ranges whose ends and width are exact.',
     asan=False)
CHECKS['P21'] = {'units': [('arrays.cpp', [])]}
META['P21'] = dict(technique='explicit-state model checking of the implementation: every history of calls up to a depth, compared step by step with a list of values', level='model_checking',
    rule='every sequence of four (thorough five) out of seventeen calls (push_back of new, named and null elements, pop_back, clear, resize, reserve, copies, moves, swaps, exchange and assignment of elements, copies in which each element copy fails in turn) from four starts, executed on two real arrays; after every call both are observed in full (size, positions, iteration, at, front, back) and the living elements are counted. Non-trivial: a history that ends with elements.',
    assumptions=['every element is given to one array once'], note='Complete over the stated calls and depth. Trusts the list model, the counting element type, AddressSanitizer and g++ 13.')

def overloads(s, robin, group):
    return [('overloads.cpp', ['-D' + m, '-DMC_SET=%d' % s, '-DMC_PART=%d' % p]) for m in MAPS for p in (robin if m == 'MC_ROBIN' else group)]
CHECKS['P10']['units'] += overloads(1, [0, 1, 2, 3], [0, 2, 3])
CHECKS['P07']['units'] += overloads(4, [0, 1], [0, 2])
CHECKS['P05']['units'] += overloads(5, [0, 1], [0, 3])
CHECKS['P22'] = {'units': overloads(2, [0, 1, 3], [0, 3])}
META['P22'] = dict(technique='explicit-state model checking of the implementation: every constructor and list form with every capacity and key subset, followed by copies, growth and removals', level='model_checking',
    rule='every constructor overload (capacity, hasher, comparison, allocator, iterator range of six kinds, list) x requested capacities 0..255 x subsets of eight keys, for stateful hashers, comparisons and allocators with unequal instances, next to maps of every size around the growth points. ' + BFS_RULE,
    assumptions=ASSUME, note='Complete over the overloads, capacities and key subsets stated.' + TRUST)
CHECKS['P23'] = {'units': overloads(3, [0, 1, 3], [0, 2, 3])}
META['P23'] = dict(technique='explicit-state model checking of the implementation: in every reached state every lookup overload and every position of the container is examined', level='model_checking',
    rule='breadth-first search over histories from every size around the growth points; in every state: at, const at, find, contains, count, equal_range for every key of the universe (present and absent, also by a convertible type), and every position stepped forward, backward, copied, converted and compared. ' + BFS_RULE,
    assumptions=ASSUME, note='All histories to depth 3 (4 for small maps; thorough 4).' + TRUST)

def large(s, maps, parts): return [('large.cpp', ['-D' + m, '-DMC_SET=%d' % s, '-DMC_PART=%d' % p]) for m in maps for p in parts]
for pid, m in zip(['P01', 'P02', 'P03', 'P19', 'P20'], MAPS + ['MC_F16', 'MC_R16']): CHECKS[pid]['units'] = CHECKS[pid]['units'] + large(1, [m], [0, 1, 2, 4, 5, 6, 7])
for pid, st in zip(['P05', 'P06', 'P07', 'P11'], [5, 6, 7, 11]): CHECKS[pid]['units'] = CHECKS[pid]['units'] + large(st, MAPS, [1, 4] + [7] * (st == 6))
CHECKS['P24'] = {'units': [('ranges.cpp', ['-DMC_VAR="%s"' % n, '-Djstd=jstd_' + n] + f) for n, f in [('cxx17', []), ('cxx14', ['-std=c++14']), ('cxx20', ['-std=c++20', '-UNDEBUG'])]]}
META['P24'] = dict(technique='explicit-state model checking of the implementation: every program of steps of a reversed position up to a depth, and exhaustive enumeration of ranges, offsets, values and alignments', level='model_checking',
    rule='reversed positions: every program of four (thorough five) steps out of fifteen over ranges of up to five elements from every start, for six kinds of positions, with every observation and every comparison after each step; advance, next, prev and distance for every start and end in ranges of up to twelve elements, for positions of every category and two difference types, with guards at both ends; size, empty, data, begin/end and reversed walks of containers, arrays and lists of every length up to the bound; swap, exchange and array swap for every pair of seven values of eight types; swap_ranges for every pair of sub-ranges of sequences of up to five; rounding to every power of two of every small number and every number near a sum or difference of two powers of two; values built from tuples. Built for C++14, C++17 and C++20, once with assertions enabled.',
    assumptions=['the definitions written in the check are the intended ones'], note='Complete over the programs, ranges and values stated.')
CHECKS['P25'] = {'units': [('threads.cpp', ['-D' + m, '-DMC_PART=%d' % p]) for m in MAPS + ['MC_F16', 'MC_R16'] for p in (0, 1, 2)], 'asan': False, 'flags': ['-fsanitize=thread', '-pthread']}
META['P25'] = dict(technique='stateless model checking of the implementation with a happens-before race detector: every pair of readers of one map in every state, and every pair of programs on two maps, up to the bounds, each run in two threads; a pair without conflicting accesses has a single class of equivalent schedules, so the one that is run decides them all', level='model_checking',
    rule='readers: maps of every size of the list (0 to 33 and around the powers of two), of four families of hash codes and three element types, after no, every and (for a quarter of the sizes) every two of ten preparations; every pair of the four ways to read (lookups, iteration, queries, copying), constant and not constant; the threads read before anything else has read the map, and have to see what its twin shows. Own maps: every pair of a program of up to two operations out of thirty with another one (the pairs of two two-step programs thinned out in the quick tier, all and programs of three in the thorough tier); each thread has to get what it gets alone. The detector reports every conflicting pair of accesses of the two threads, which are ordered by nothing.',
    assumptions=['the detector sees every access of the code under test (all of it is compiled with instrumentation)', 'the threads use no synchronisation besides their start and end; what allocation and exceptions do inside the runtime is taken to be correct'], note='Complete over the programs and states stated, and over all schedules of each.')
