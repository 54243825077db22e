"""The checks: how each property's harness is built and how many cases each tier generates."""


AVX512 = ('avx512f', 'avx512bw', 'avx512vl', 'avx512dq', 'avx512cd')      # bins that need it are left out on other machines


def sel(src, which):
    return [dict(src=src, flags=['-DPART=%d' % i]) for i in which]


def configs(src, which, n, base=('-march=x86-64',)):
    """The same histories with the code that other compilers, instruction sets and optimisation levels select."""
    return [dict(name=name, units=sel(src, (which[k % len(which)],)), flags=f, quick=n, thorough=n * 20, **x)
            for k, (name, f, x) in enumerate((('base', list(base), {}), ('clang', ['-O2'], dict(cxx='clang++')),
                                              ('O3-cxx20', ['-O3', '-std=c++20'], {}), ('unsigned-char', ['-funsigned-char', '-O2'], {})))]


def parts(src, n, **kw):
    return [dict(src=src, flags=['-DPART=%d' % i], **kw) for i in range(n)]


# The comparison modes of string_utils.h: none defined (as a user who includes it gets it), STL, U64, SSE4.2, libc.
MODES = [('default', [])] + [(n, ['-DSTRING_UTILS_STL=0', '-DSTRING_UTILS_U64=1', '-DSTRING_UTILS_SSE42=2', '-DSTRING_UTILS_MODE=%d' % i])
                             for i, n in enumerate(['stl', 'u64', 'sse42', 'libc'])]

CHECKS = {
    'C01': dict(
        rule='A case is a random history of up to 60 operations (inserting forms, lookups, erase, bulk insertion and removal, '
             'churn, clear, reserve, rehash, shrink_to_fit, max_load_factor) on one map, compared with std::map after every '
             'operation. Non-trivial: the map grew and a key was inserted again after it had been erased.',
        bins=[dict(name='hist', units=parts('props/c01.cpp', 8), quick=6000, thorough=120000),
              dict(name='assert', units=parts('props/c01.cpp', 2), ndebug=False, quick=600, thorough=6000)]
        + configs('props/c01.cpp', (0, 1), 500)),
    'C02': dict(
        rule='A case is a random history of up to 60 operations (inserting forms, lookups, erase, bulk insertion and removal, '
             'churn, clear, reserve, rehash, shrink_to_fit, max_load_factor) on one robin_hash_map, compared with std::map after '
             'every operation. Non-trivial: the map grew and a key was inserted again after it had been erased.',
        bins=[dict(name='hist', units=parts('props/c02.cpp', 11), quick=6000, thorough=120000),
              dict(name='assert', units=parts('props/c02.cpp', 2), ndebug=False, quick=600, thorough=6000)]
        + [dict(name='avx512', units=sel('props/c02.cpp', (0, 8, 10)), flags=['-march=x86-64-v4'], quick=1000, thorough=20000, needs=AVX512)]
        + configs('props/c02.cpp', (1, 8), 500, ['-march=x86-64', '-mavx2'])),
    'C03': dict(
        rule='A case is a random history of up to 30 operations with erase(iterator), erase(first, last), std::erase_if and '
             'erase-while-iterating, with the iterator interface checked after every operation. Non-trivial: an operation erased '
             'some but not all of more than 16 elements.',
        bins=[dict(name='iter', units=parts('props/c03.cpp', 10), quick=6000, thorough=150000)]),
    'C04': dict(
        rule='A case is a random history of up to 40 operations on three maps with copy and move construction (also with an '
             'allocator), assignments, swap, self-assignment, initializer-list assignment; all maps are compared with their models '
             'after every operation. Non-trivial: two maps had the same non-empty contents and one was changed later.',
        bins=[dict(name='copy', units=parts('props/c04.cpp', 11), quick=3000, thorough=120000)]),
    'C05': dict(
        rule='A case is a random history of up to 45 operations of all kinds on two maps of instrumented elements with an '
             'instrumented allocator. Non-trivial: a map grew and elements were removed.',
        bins=[dict(name='life', units=parts('props/c05.cpp', 9), quick=9000, thorough=120000)]),
    'C06': dict(
        rule='A case is a sequence of 14 capacity operations (reserve, rehash, shrink_to_fit, clear, max_load_factor, construction '
             'with a capacity, copy) between bulk insertions and removals. Non-trivial: a promise about more than 64 elements was '
             'tested (reserved room filled, a table shrunk, a cleared table refilled).',
        bins=[dict(name='cap', units=parts('props/c06.cpp', 7), quick=15000, thorough=120000)]),
    'C07': dict(
        rule='A case is a random history of 40 operations; before each the address and iterator of every element is recorded and '
             'compared afterwards if the capacity is the same. Non-trivial: more than 100 elements were re-checked and a map of more '
             'than 16 elements changed.',
        bins=[dict(name='stable', units=parts('props/c07.cpp', 5), quick=5000, thorough=120000)]),
    'C08': dict(
        rule='A case replaces elements of a map of constant size up to 50000 times (oldest, random, same key, emptied, cleared) and '
             'bounds the capacity. Non-trivial: at least ten times as many replacements as elements and more than 16 elements.',
        bins=[dict(name='churn', units=parts('props/c08.cpp', 6), quick=12000, thorough=150000)]),
    'C09': dict(
        rule='A case is a random history of 40 operations with a key type whose equality ignores part of the key and a hash of any '
             'quality (constant, few values, equal high or low bits, identity, mixed). Non-trivial: a different but equal key was '
             'inserted again and the map grew.',
        bins=[dict(name='eq', units=parts('props/c09.cpp', 8), quick=8000, thorough=200000)]),
    'C11': dict(
        rule='A case is a random history of 60 inserting and looking-up calls with lvalue and rvalue arguments of instrumented '
             'types. Non-trivial: an insertion met a present key and the map was rehashed with elements in it.',
        bins=[dict(name='args', units=parts('props/c11.cpp', 6), quick=150000, thorough=3000000)]),
    'C10': dict(level='fault_enumeration',
        rule='A case builds a random map, runs one operation without a fault, and then once for each of its fault points (element '
             'construction, copy, assignment, allocation, hash, equality; up to 40) with an exception thrown there, possibly 50 '
             'times in a row. Non-trivial: an exception was injected into a map of more than 3 elements.',
        assumptions=['moving an element does not throw', 'the hash and equality do not throw while elements are moved to a new table'],
        bins=[dict(name='fault', units=parts('props/c10.cpp', 7), quick=10000, thorough=120000)]),
    'C12': dict(
        rule='A case is a random history of 30 operations on three maps whose allocators carry an identity (propagating or not). '
             'Non-trivial: elements were copied, moved, assigned or swapped between maps of different allocators.',
        bins=[dict(name='alloc', units=parts('props/c12.cpp', 14), quick=120000, thorough=2500000)]),
    'C19': dict(
        rule='A case builds a map in six steps in memory that is write-protected after each step while every const operation '
             '(lookups, iteration, observers, copying) is called and compared with the model. Non-trivial: the map holds more than '
             '20 elements and some were erased.',
        bins=[dict(name='const', units=parts('props/c19.cpp', 6), quick=40000, thorough=800000)]),
    'C13': dict(
        rule='A case is a sequence of 12 operations (comparison in all forms, parts, substr, copy, iteration, attaching, appending) on '
             'two views of related strings in exactly sized buffers, compared with std::basic_string_view. Non-trivial: different '
             'strings of more than 4 characters, or parts, were compared.',
        bins=[dict(name=n, units=[dict(src='props/c13.cpp', flags=f)], quick=250000, thorough=5000000) for n, f in MODES]),
    'C14': dict(
        rule='A case compares 8 pairs of related strings (equal, one character or bit changed, prefix, extension, independent) in '
             'exactly sized buffers with every comparison function. Non-trivial: strings that differ behind a common prefix.',
        bins=[dict(name=n, units=[dict(src='props/c14.cpp', flags=f + ['-DPART=0'])], quick=250000, thorough=5000000) for n, f in MODES]),
    'C15': dict(
        rule='A case hashes 6 texts or byte sequences in two exactly sized, differently aligned copies with every hash function and '
             'compares with bit-by-bit references, or hashes equal keys of all types through jstd::hash. Non-trivial: more than 16 '
             'bytes that do not fill the last word, or strings longer than the short string buffer.',
        bins=[dict(name=n, units=[dict(src='props/c15.cpp', flags=f)], quick=150000, thorough=4000000)
              for n, f in (('sse42', []), ('nosse42', ['-march=x86-64']))]),
    'C16': dict(
        rule='A case takes 8 numbers, near powers of two and ten, with few or many ones, or of any width, and compares every function '
             'with counting bit by bit, long division and 128-bit products; or it follows a whole probe sequence. Non-trivial: a '
             'number above 2^32 that is no power of two, a product above 2^64, or a table of more than two buckets.',
        bins=[dict(name=n, units=[dict(src='props/c16.cpp', flags=f)], quick=q, thorough=q * 40, **k)
              for n, f, q, k in (('x86', [], 3000000, {}), ('ct', ['-DCT'], 30000, {}), ('base', ['-march=x86-64'], 1500000, {}),
                                 ('nogcc', ['-DNOGCC', '-DNO128'], 1500000, {}), ('w32', ['-DW32'], 1500000, {}),
                                 ('w32nogcc', ['-DW32', '-DNOGCC', '-march=x86-64'], 1500000, {}),
                                 ('cxx20', ['-std=c++20'], 1000000, {}),
                                 ('clang', [], 1000000, dict(cxx='clang++')))]),
    'C17': dict(
        rule='A case fills a register with bytes near 0x00, 0x7F, 0x80 and 0xFF and compares every helper, at every lane index, with '
             'the same change made in memory. Non-trivial: a register with sign bits and a non-zero value, or bytes of either order.',
        bins=[dict(name=n, units=[dict(src='props/c17.cpp', flags=f)], quick=q, thorough=q * 40, **k)
              for n, f, q, k in (('avx2', [], 600000, {}), ('avx', ['-march=x86-64-v2', '-mavx'], 600000, {}), ('sse2', ['-march=x86-64'], 600000, {}),
                                 ('avx-O0', ['-march=x86-64-v2', '-mavx', '-O0'], 100000, {}), ('avx2-O3', ['-O3'], 600000, {}),
                                 ('unsigned', ['-funsigned-char'], 600000, {}), ('unsigned-sse2', ['-funsigned-char', '-march=x86-64'], 600000, {}),
                                 ('clang', [], 600000, dict(cxx='clang++')), ('clang-avx', ['-march=x86-64-v2', '-mavx', '-O0'], 100000, dict(cxx='clang++')))]),
    'C18': dict(
        rule='A case is a history of constructing, seeding, copying, assigning and destroying generators with up to 1300 draws after '
             'each step, or draws from one range. Non-trivial: a reseeded or copied generator beyond its first block of outputs, or a '
             'range of more than one value.',
        bins=[dict(name='gcc', san=['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'], units=[dict(src='props/c18.cpp')], quick=400000, thorough=12000000),
              dict(name='O3', units=[dict(src='props/c18.cpp', flags=['-O3'])], quick=400000, thorough=12000000)]),
    'C20': dict(
        rule='A case is a random history of insertions, lookups and erasures whose arguments have other types than the key and the value '
             '(texts, views, arrays, numbers of every width, enumerations, pairs, ranges). Non-trivial: an argument of another type '
             'stood for a key that was present.',
        bins=[dict(name='other', units=parts('props/c20.cpp', 6), quick=24000, thorough=800000)]),
    'C21': dict(
        rule='A case is a random history of up to 50 operations of all kinds (insertions, lookups, erasure by key, iterator, range and '
             'predicate, bulk changes, capacity, copies, moves, swaps) on two flat16_hash_maps, compared with std::map after every '
             'operation. Non-trivial: a map grew and a key was inserted again after it had been erased.',
        bins=[dict(name='hist', units=parts('props/c21.cpp', 6), quick=10000, thorough=120000),
              dict(name='assert', units=parts('props/c21.cpp', 2), ndebug=False, quick=600, thorough=6000),
              dict(name='sse2', units=sel('props/c21.cpp', (0, 2)), flags=['-march=x86-64'], quick=1000, thorough=20000)]),
    'C22': dict(
        rule='A case is a walk of two reverse iterators, a sequence with two positions, a pair of ranges to swap, an address to align, '
             'a history of up to 25 operations on two string_view_arrays of instrumented elements, or a history of up to 12 operations '
             'on a string_helper. Non-trivial: positions differ, ranges are not empty, the address was not aligned, an array was '
             'copied and elements were removed, a text was terminated.',
        bins=[dict(name=n, units=[dict(src='props/c22.cpp', flags=f)], quick=q, thorough=q * 30, **x)
              for n, f, q, x in (('helpers', [], 120000, {}), ('assert', ['-std=c++20'], 20000, dict(ndebug=False)), ('clang', ['-O2'], 60000, dict(cxx='clang++')))]),
    'C23': dict(
        rule='A case is a random history of up to 80 operations whose arguments refer to keys, values and parts of values of the elements '
             'of the map itself, half of them on a map filled to its threshold. Non-trivial: the map grew during such an operation, and '
             'more than three insertions referred to elements.',
        bins=[dict(name='own', units=parts('props/c23.cpp', 7), quick=12000, thorough=400000),
              dict(name='assert', units=parts('props/c23.cpp', 7), ndebug=False, quick=1500, thorough=20000)]),
}
