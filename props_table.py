PROPS += [
P('C01', 'The group flat maps behave like a map for every history',
  'For every sequence of insertions in any form, lookups, key erasures, capacity operations and clears, a group15 or group16 flat map holds exactly the elements a reference map holds. '
  'Every call returns what the reference map would return: whether it inserted or erased, the element found, its value, and size().',
  ['histories', 'inputs'], 'all operation histories, key sets, hash functions (good or bad), key and value types of the supported kinds',
  'The tests run a few fixed benchmark patterns (sequential or random keys, one operation kind at a time) with int and string keys; they compare no contents against a model and never mix growth, erasure and re-insertion under colliding hashes.',
  G + GG + SP, [('probing by groups with overflow marks', 'group16_flat_table.hpp find_index/find_empty_to_insert, group15_flat_table.hpp likewise'),
  ('SIMD matching of hash bytes', 'flat_map_group15.hpp/flat_map_group16.hpp match_hash/match_empty'), ('growth', 'rehash_impl')],
  [('groups', 'one hash byte per slot and overflow marks', 'flat_map_group15.hpp, flat_map_group16.hpp'), ('slot_threshold_', 'number of elements that triggers growth', 'group15/16_flat_table.hpp')],
  ['return values of every operation', 'find/count/contains of every key', 'iteration']),
P('C02', 'robin_hash_map behaves like a map for every history',
  'With a hash that spreads the keys, a robin_hash_map holds exactly the elements a reference map holds after every sequence of insertions in any form, lookups, erasures, capacity operations and clears, whether its slots are stored in place or indirectly. '
  'Every call returns what the reference map would return: whether it inserted or erased, the element found, its value, and size().',
  ['histories', 'inputs'], 'all operation histories and key sets, key and value types of the supported kinds; hashes that map at most a few keys to one home (a robin_hash_map answers a probe distance over its limit by doubling its table)',
  'The tests run a few fixed benchmark patterns with well-distributed keys; displacement chains, backward shifts at the end of the table and the distance limit depend on where the keys collide and on the order of the operations.',
  R + SP, [('robin-hood displacement and backward shift', 'robin_hash_map.h emplace_rich_slot/insert_to_place, erase_slot'), ('growth at the distance limit', 'need_grow, rehash_impl, max_lookups_'), ('indirect slots', 'kIsIndirectKV branches')],
  [('ctrls', 'distance from home and hash byte per slot', 'robin_hash_map.h'), ('max_lookups_', 'distance limit and number of spare slots at the end', 'robin_hash_map.h')],
  ['return values of every operation', 'find/count/contains of every key', 'iteration']),
P('C03', 'Iteration visits each element once; erasing through iterators is exact',
  'Iteration over a map visits every element exactly once, agrees with lookups, and stepping back from an element reaches the one before it. Erasing through an iterator, a range of iterators or a predicate removes exactly the elements meant, and the returned iterator continues with exactly the elements that follow.',
  ['histories', 'inputs'], 'all histories and all positions and ranges',
  'The tests iterate only over freshly filled maps and never erase through an iterator (before this work those overloads did not even compile).',
  G + GI + R, [('skipping of unused slots', 'skip_empty_slots / find_first_used_index / iterator increment'), ('erase by iterator and range', 'group15/16_flat_table.hpp erase(), robin_hash_map.h erase()')],
  (), ['begin/end', 'erase results', 'std::erase_if']),
P('C04', 'Copies, moves, assignments and swaps transfer exactly the contents',
  'A copied, assigned or constructed map has exactly the contents of its source, a moved or swapped map has exactly what the other had, and a moved-from map can be cleared and used again. Afterwards the maps are independent: no operation on one changes another.',
  ['histories', 'inputs'], 'all histories over several maps of any sizes, also empty, erased, reserved and moved-from ones',
  'The tests copy no map and move none; the whole-map operations are not executed at all.',
  G + R, [('copy and move of tables', 'copy_slots_from/move_slots_from/swap_content/assign_impl'), ('constructors', 'group15/16_flat_map.hpp, robin_hash_map.h')], (),
  ['contents of every map after each step']),
P('C05', 'Element lifetimes and memory are balanced',
  'At any time the objects alive are exactly the keys and values of the elements, each constructed and destroyed once and never used outside its lifetime. When maps are destroyed every object is gone and every block was returned once, with the size it was allocated with.',
  ['histories'], 'all histories of all operations with types that have constructors and destructors',
  'The tests observe no constructor, destructor or allocation; a leak or a double destruction of trivially copyable values is invisible to them.',
  G + SP + R, [('slot construction and destruction', 'slot_policy_traits.h, construct/destroy/transfer'), ('release of slots and groups', 'destroy_data/destroy_slots/destroy_groups')], (),
  ['counts of live objects and blocks', 'AddressSanitizer']),
P('C06', 'Capacity, reserve, rehash, shrinking and load factor keep their promises',
  'No capacity operation changes the contents of any map. load_factor() is size over capacity and stays within max_load_factor(), and setting max_load_factor() twice has the effect of setting it once. '
  'In a group flat map, after reserve(n) or construction with n that allocated a table, n elements fit without the capacity changing; rehash(n) gives at least n buckets; shrink_to_fit() leaves no more capacity than the elements need; clear() keeps the capacity usable.',
  ['histories', 'inputs'], 'all sizes, requested capacities and load factors, in any order',
  'The tests call reserve() a few times before filling a map and look only at the speed.',
  G + R, [('capacity computation', 'shrink_to_fit_capacity/fit_to_slot_capacity/calc_capacity'), ('threshold', 'calc_slot_threshold/max_load_factor')], (),
  ['capacity()', 'bucket_count()', 'load_factor()']),
P('C07', 'References and iterators stay valid while the capacity is unchanged',
  'As long as an element of a group flat map is not erased and the capacity of the map does not change, its address and the iterators to it stay valid whatever else is inserted or erased. Operations that insert no element (looking up, erasing, inserting a key that is present) never change the capacity.',
  ['histories'], 'all histories between two changes of capacity',
  'No test holds a reference across another operation.',
  G, [('slots are never moved within a table', 'find_empty_to_insert, erase_slot')], (), ['addresses of elements', 'iterator equality']),
P('C08', 'A map of bounded size keeps a bounded capacity under endless replacement',
  'With a well-distributed hash, a group flat map that never holds more than n elements keeps, over at least fifty thousand replacements of elements, a capacity within eight times what n elements need, and every operation terminates.',
  ['histories'], 'all replacement patterns (oldest first, random, same key, emptied and refilled, cleared and refilled) and sizes',
  'The tests erase each key once and stop; slow growth, or a table that fills up with erased slots, needs long histories.',
  G, [('overflow marks left by erased elements lower the growth threshold', 'erase_slot/find_empty_to_insert, slot_threshold_')], (), ['capacity()', 'termination (CPU limit)']),
P('C09', 'Any hash and equality the caller supplies is honoured',
  'Keys that the equality of the map calls equal are one key whatever else differs in them, the stored key is the first inserted, and insert_or_assign replaces only the value. '
  'The contents of a group flat map do not depend on the quality of the hash: even one constant hash for all keys gives the same results.',
  ['inputs', 'histories'], 'all hash functions consistent with the equality, including constant ones and ones that use few bits',
  'The tests use the default hash and equality with well-distributed keys only.',
  G + GG, [('full key comparison after the hash byte matches', 'find_index'), ('probing past full groups', 'find_empty_to_insert, is_overflow')], (), ['find with equal but different keys', 'the stored key']),
P('C10', 'An operation that fails with an exception leaves the map valid',
  'If a constructor or assignment of an element, the allocator, or the hash or equality throws, the exception reaches the caller, nothing is leaked or destroyed twice, and the map stays valid. A failed insertion of one element, reserve, rehash, copy or lookup leaves the contents as they were.',
  ['fault_sequences', 'histories'], 'each possible point of failure of each operation on maps of any state, also repeatedly; moving an element and hashing during growth do not throw; shrinking a robin_hash_map is excepted',
  'No test throws an exception.',
  G + R + SP, [('rollback of the used mark', 'group15/16_flat_table.hpp emplace/try_emplace paths; robin_hash_map.h construct_new_slot, cancel_insertion'), ('allocation before commitment', 'create_slots, copy_slots_from, is_overlong_insertion')], (),
  ['contents, live objects and blocks after the exception'],
  'exhaustive fault injection at each fault point of generated operations on generated states',
  'Every fault point (up to 40) of every generated operation is failed; states and operations are sampled. Moves do not throw.'),
P('C11', 'Arguments are moved or copied only as documented',
  'An insertion never changes an lvalue argument, try_emplace() leaves its arguments untouched when the key is present, and lookups create no objects. '
  'Growth and other capacity changes move elements and never copy them.',
  ['inputs', 'histories'], 'all inserting and looking-up calls with lvalue and rvalue arguments, in any state',
  'The tests insert temporaries and never look at the argument afterwards.',
  G + R + SP, [('forwarding of arguments', 'emplace/try_emplace/insert_or_assign of group15/16_flat_table.hpp'), ('transfer of slots', 'no_grow_unique_transfer_insert')], (),
  ['moved-from marks and copy counts of instrumented types']),
P('C12', 'Allocators are used and propagated as their traits say',
  'The allocator a map uses after construction, copying, moving, assignment and swap is the one the allocator traits prescribe. Every block is returned to an equal allocator with the size it was allocated with.',
  ['histories', 'configurations'], 'all histories over maps with equal and unequal, propagating and non-propagating allocators',
  'The tests use std::allocator only.',
  G + R, [('propagation', 'operator =, swap, move_assign, assign_impl'), ('allocator-extended constructors', 'group15/16_flat_map.hpp')], (), ['get_allocator()', 'the owner of every block']),
P('C13', 'string_view behaves like the standard string view',
  'For all texts, of every character type and containing any characters, jstd::basic_string_view gives the same contents, comparison results, substrings, copies and exceptions as std::basic_string_view, and it never touches memory outside the text.',
  ['inputs'], 'all pairs of texts of any length and character type, all positions and counts, with every string comparison backend the build can select',
  'The tests use string_view only as a key of benchmarks, with one backend and a few short words.',
  ['src/jstd/string/string_view.h', 'src/jstd/string/string_iterator.h'] + ST, [('comparison of views and parts', 'string_view.h compare/is_equal/operators'), ('parts and copies', 'string_view.h substr/copy'), ('iterators', 'string_iterator.h')],
  (), ['results of every operation', 'exceptions', 'AddressSanitizer'], 'property-based differential testing against std::basic_string_view'),
P('C14', 'String primitives compare exactly the characters given',
  'Every string comparison and copying primitive gives the result of comparing or copying the given characters one by one, whatever their values, lengths and alignment, and reads and writes nothing outside the given ranges.',
  ['inputs', 'configurations'], 'all pairs of texts of any length, content, alignment and character type; all string comparison backends (STRING_UTILS_MODE)',
  'The tests compare a few words in one configuration; reading a few bytes behind a string is invisible to them.',
  ST, [('SSE4.2 comparison in blocks of 16 bytes', 'string_utils.h'), ('word-wise comparison', 'string_utils.h is_equal/compare'), ('library backends', 'string_libc.h, string_stl.h')],
  (), ['results of every function', 'AddressSanitizer on exactly sized buffers'], 'property-based differential testing against std::char_traits'),
P('C15', 'Equal keys have equal hashes, and hashing reads only the key',
  'jstd::hash gives equal values for values that compare equal, whatever object holds them and wherever it lies in memory, and different values for keys that differ, except for rare coincidences. '
  'Every hash function depends on exactly the characters given, computes its published definition, and reads nothing outside the key.',
  ['inputs', 'configurations'], 'all numbers, pointers and texts of any length, alignment and character type, with and without SSE 4.2',
  'The tests hash a few integers and words; a hash that reads a byte too many or ignores the last one works by luck in them.',
  ['src/jstd/hasher/hashes.h', 'src/jstd/hasher/hash_crc32.h', 'src/jstd/hasher/hash_helper.h', 'src/jstd/hasher/fnv1a.h'],
  [('the default hash of the maps', 'hashes.h hash<T>'), ('CRC32 in blocks of 8, 4, 2 and 1 bytes', 'hash_crc32.h'), ('byte and word hashes', 'hash_helper.h, hashes.h, fnv1a.h')],
  (), ['hash values', 'AddressSanitizer on exactly sized buffers'], 'property-based differential testing against naive definitions of the hashes'),
P('C16', 'Bit, power-of-two and multiplication primitives have their mathematical values',
  'For every argument of every width, counting and scanning bits, rounding to powers of two, integer logarithms, 128-bit products and the mixers built on them give their mathematical values, at run time and at compile time, and with every compiler and target variant the headers select. '
  'The index policies stay below the capacity, and the probe sequence visits every bucket exactly once.',
  ['inputs', 'configurations'], 'all 64-bit and 32-bit numbers; GCC, clang, C++20, targets without BMI and POPCNT, compilers without builtins or 128-bit integers, 32-bit words',
  'The tests compute with small numbers, on one compiler: the largest numbers, zero, and the portable variants are never executed.',
  ['src/jstd/support/BitUtils.h', 'src/jstd/support/Power2.h', 'src/jstd/math/log10_int.h', 'src/jstd/hasher/hashes.h', 'src/jstd/hashmap/group_quadratic_prober.hpp'],
  [('bit scans and counts', 'BitUtils.h'), ('rounding at run time and at compile time', 'Power2.h'), ('digits of numbers', 'log10_int.h'), ('128-bit products and index policies', 'hashes.h'), ('probe sequence', 'group_quadratic_prober.hpp')],
  (), ['results of every function'], 'property-based differential testing against bit-by-bit and long-hand definitions'),
P('C17', 'Vector helpers act on exactly the lane they name',
  'For every register content, every value and every lane index, the vector helpers return or replace exactly the lane they name and leave the others alone, compare bytes as signed numbers, and broadcast and convert with their documented values, with every instruction set and compiler variant the headers select and whether plain char is signed or not.',
  ['inputs', 'configurations'], 'all register contents, values and lane indices; SSE2, AVX, AVX2, GCC, clang, signed and unsigned plain char',
  'No test executes the helpers; each index and each instruction set is a separate instance, and only one instruction set is compiled at a time.',
  ['src/jstd/support/BitVec.h'], [('insertion and extraction by lane', 'BitVec.h mm256_insert_*/mm256_extract_*'), ('signed comparison of bytes', 'BitVec.h _mm_cmpgt_epi8_fixed')],
  (), ['every lane of the result'], 'property-based differential testing against the same change made in memory'),
P('C18', 'Random generators follow their algorithm and ranged draws stay in range',
  'From any non-zero seed or non-empty key, MT19937_32 and MT19937_64 give the sequence of the Mersenne twister, also when they are seeded again at any point, copied, assigned or outlive the source of a copy. '
  'Draws from a range stay inside it for every pair of bounds in any order, including the range of all values, and reach every value of a small range. Equal seeds give equal draws.',
  ['histories', 'inputs'], 'all seeds, keys, histories of drawing, seeding and copying, and bounds of every type (fractions: with a finite difference)',
  'No test draws a number; reseeding, copying and extreme bounds only go wrong after hundreds of draws or at the limits of the types.',
  ['src/jstd/system/MT19937_32.h', 'src/jstd/system/MT19937_64.h', 'src/jstd/system/RandomGen.h', 'src/jstd/system/LibcRandom.h', 'src/jstd/system/LibcRand.h'],
  [('state update', 'MT19937_32.h, MT19937_64.h next_state'), ('ranges', 'RandomGen.h nextInteger')],
  [('left', 'words of the block not yet drawn', 'MT19937_32.h, MT19937_64.h')], ['every draw'], 'model-based property testing against the published recurrence and the standard library'),
P('C19', 'Const operations write nothing',
  'Lookups, iteration, observers and copying of a const map write to none of the memory of the map, so any number of threads may read it at the same time, and they give the same results every time.',
  ['schedules', 'inputs'], 'all const operations in all states of the map; any interleaving of readers, because none writes',
  'The tests run one thread, and a cached or lazily updated member gives the right answers there.',
  G + R, [('const lookups', 'find_index(), const iterators')], (), ['write-protected memory'],
  'property-based testing with the memory of the map write-protected'),
P('C20', 'Arguments of other types act as the key and value they convert to',
  'Every insertion, lookup and erasure given arguments of other types than the key and the value (texts, numbers of other widths, enumerations, pairs and ranges of them) does and returns exactly what it does given the key and value those arguments convert to, also when the equality of the map can compare the arguments themselves.',
  ['inputs', 'histories'], 'all overloads that take other types, all argument types the key and value can be made from, present and absent keys',
  'The tests use arguments of the key type; hashing one form of the argument and comparing another only shows for values that change in the conversion.',
  G + R, [('conversion', 'find_or_insert(), find_and_insert(), find(KeyT)'), ('overloads', 'emplace_impl(), try_emplace_impl()')]),
P('C21', 'flat16_hash_map behaves like a map for every history',
  'For every sequence of insertions in any form, lookups, erasures by key, iterator, range and predicate, capacity operations and clears, a flat16_hash_map holds exactly the elements a reference map holds, and every call returns what the reference map would return. '
  'Iteration visits every element once, copies and swapped maps have exactly the contents of their source and are independent, every element is constructed and destroyed exactly once, and an insertion leaves at most one element more than the maximum load factor allows.',
  ['histories', 'inputs'], 'all operation histories, key sets and hash functions, key and value types of the supported kinds; a moved-from map is only destroyed',
  'The tests do not touch flat16_hash_map; large parts of it did not compile before this work.',
  ['src/jstd/hashmap/flat16_hash_map.h'], [('probing by clusters of 16', 'flat16_hash_map.h find_impl, find_and_prepare_insert'), ('erased slots', 'erase_slot()'), ('growth and reordering', 'rehash_impl, reorder_or_grow_if_necessary')],
  [('control bytes', 'empty, deleted or 7 bits of the hash per slot', 'flat16_hash_map.h'), ('left_empties_', 'empty slots that may be used before growth', 'flat16_hash_map.h')],
  ['return values of every operation', 'lookups of every key', 'iteration', 'capacity()', 'live objects']),
P('C22', 'Iterator, swapping and alignment helpers and string_view_array act like their standard counterparts',
  'For every sequence and position, reverse iterators, the range accessors, distance, advance, next and prev, swapping of values, pointers, arrays and ranges, exchange and the alignment helpers give the results of their standard counterparts. '
  'A string_view_array holds exactly the pairs a reference vector holds after every history and deletes each pair put into it exactly once; copies are independent. A string_helper terminates a text in place and gives the buffer back unchanged.',
  ['inputs', 'histories'], 'all sequences, positions, offsets, addresses and alignments; all histories of the two classes',
  'No test executes the helpers; several did not compile before this work.',
  ['src/jstd/iterator.h', 'src/jstd/memory/swap.h', 'src/jstd/utility/utility.h', 'src/jstd/string/string_view_array.h', 'src/jstd/string/string_helper.h'],
  [('iterators', 'iterator.h'), ('swapping', 'swap.h'), ('exchange and alignment', 'utility.h'), ('ownership of the pairs', 'string_view_array.h destroy()'), ('termination in place', 'string_helper.h truncate(), recover()')],
  (), ['results of every helper', 'live objects', 'every character of the buffer'], 'property-based differential testing against the standard library and reference models'),
P('C23', 'Arguments may refer to elements of the map itself',
  'Every insertion, lookup and erasure whose arguments refer to the key, the value or a part of the value of an element of the same map (m.emplace(k, m.begin()->second), m[it->second], m.insert_or_assign(k, m.at(k)), m.erase(it->first)) does and returns exactly what it does with equal arguments that lie elsewhere, also when it grows the table or moves elements.',
  ['histories', 'inputs'], 'all single-element operations of the four maps, all elements the arguments can refer to, all fill levels',
  'The tests pass temporaries. A reference to an element is only harmful in the one insertion of many that grows the table or displaces that element.',
  G + R + ['src/jstd/hashmap/flat16_hash_map.h'], [('construction before growth', 'grow_and_construct_slot(), insert_temporary()'), ('construction before displacement', 'robin_hash_map.h find_and_insert<AllowMove>')],
  (), ['return values of every operation', 'iteration', 'live objects', 'AddressSanitizer'])
]
NA = []
