# What each check explores.  A job is a harness compiled for one property in some language/configuration variants.
VARIANTS = {
    '17': ['-std=c++17'],
    '20d': ['-std=c++20', '-DKTL_DEBUG_ASSERT'],
    '20': ['-std=c++20'],
    '17d': ['-std=c++17', '-DKTL_DEBUG_ASSERT'],
}
def J(src, **k):
    k['src'] = src
    return k
SPECS = {}
for p in ('A01', 'A02', 'A03', 'A04', 'A05'):
    SPECS[p] = {'jobs': [J('region.cpp', thorough_defs=['KS_STEPS=6'])],
                'bounds': 'histories of 5 (thorough: 6) operations (3 after moves), each an allocation of any 64-bit size or the deallocation of any live block; buffers of 16, 40, 64, 100, 1000 and (4 operations) 70000 bytes; 12 blocks at once given back in any rotation of either order',
                'outside': 'longer histories, other template sizes'}

SPECS['D01'] = {'jobs': [J('packed.cpp')],
    'bounds': 'every 64-bit pointer value aligned as declared, every 8- to 64-bit integer, Bits from 0 to log2(Alignment) for alignments 1, 2, 4, 8, 16, 64, 4096, 2^20, 2^63; sequences of up to two setters from an arbitrary state (the state is one word, so longer sequences add nothing)',
    'outside': 'other alignments'}
SPECS['D02'] = {'jobs': [J('sysalloc.cpp', tag=t, defs=['PATH_' + t.split('8')[0]] + (['MALLOC8'] if '8' in t else [])) for t in ('MALLOC', 'POSIX', 'MM', 'PORTABLE', 'PORTABLE8', 'MSC')],
    'bounds': 'any 64-bit size, alignments 8 to 1024 (8 and 16 where malloc is used directly), one or two blocks, at most one refused system request; system requests above 4096 bytes are refused',
    'outside': 'platform paths other than malloc, posix_memalign, _mm_malloc, _aligned_malloc (modelled) and the portable one'}
SPECS['D03'] = {'jobs': [J('helpers.cpp')], 'bounds': 'every 64-bit value', 'outside': 'pow2 (compile-time only) is decided through B03'}
SPECS['C03'] = {'jobs': [J('tbuffer.cpp')], 'bounds': 'element types of 1, 2, 3, 8, 16 and 32 bytes, Size 1 to 7, any 64-bit index, any element values, every constructor followed by two operations; Size 8, 64, 65, 100, 255, 256, 257 and 300 with mostly fixed values, any 64-bit index, every constructor and assignment', 'outside': 'other sizes'}

SPECS['B02'] = {'jobs': [J('route.cpp', entries=['fallback*'], thorough_defs=['KS_STEPS=7'])],
    'bounds': 'histories of 6 (thorough: 7) operations on 2 members, 5 on 3 and 3 on up to 6, with any 64-bit size, every combination of members refusing, deallocation in any order; fallback over 2 and 3 members and builder_min/builder_max over 1 to 6',
    'outside': 'longer histories, more than 6 members'}
SPECS['B03'] = {'jobs': [J('route.cpp', entries=['segragator*'], thorough_defs=['KS_STEPS=7', 'KS_MORE=3'])],
    'bounds': 'histories of 4 to 6 (thorough: 5 to 7) operations with any 64-bit size, any member refusing, deallocation in any order; thresholds 0, 16, SIZE_MAX; nested and builder_min/builder_max trees over 1 to 7 members',
    'outside': 'longer histories, more than 7 members'}

SPECS['B01'] = {'jobs': [J('freelist.cpp', thorough_defs=['KS_STEPS=9'])], 'bounds': 'histories of 8 (thorough: 9) operations (6 (7) on a prepared pair of freelists including move construction, move assignment and self-move) with any 64-bit size, the underlying allocator refusing anywhere; size classes (0,8], (0,16], (16,64], (24,25] and an empty one, 4 operations for (63,64], (8,256], (255,1024], (0,2048]; 12 blocks given back in any rotation of either order and taken again', 'outside': 'longer histories, other size classes'}
SPECS['B04'] = {'jobs': [J('cascade.cpp', thorough_defs=['KS_STEPS=8'])], 'bounds': 'histories of 7 (thorough: 8) operations (6 (7) with moves), any 64-bit size, instances holding 64 bytes each, with and without max_size(), deallocation in any order; up to 11 instances given back in any rotation of either order; up to 65537 blocks in one instance', 'outside': 'longer histories'}
SPECS['B05'] = {'jobs': [J('overflowh.cpp', entries=['guard_*', 'guards_*', 'user_bytes', 'huge'])], 'bounds': 'user sizes 0, 1, 7, 16, 64, 65, 200, 1000 (and 0 to 24 for writes inside the block), any two guard bytes with any values; all 128 guard bytes with any values at once around 0, 8, 33 and 500 bytes; histories of 4 (thorough: 5) operations on three blocks over fresh, recycled and linear memory; any size above 4096 refused', 'outside': 'other sizes'}
SPECS['B06'] = {'jobs': [J('overflowh.cpp', entries=['balance', 'balance_cd', 'balance_c', 'balance_d', 'counts', 'totals', 'huge'], thorough_defs=['KS_STEPS=6'])], 'bounds': 'histories of 5 (thorough: 6) operations on two equal overflow allocators (sizes 0 to 12, 40, 5000 and near SIZE_MAX; refusals anywhere), construct and destroy; totals of up to 8200 blocks of 1 MiB and 70000 constructions', 'outside': 'longer histories'}
SPECS['B07'] = {'jobs': [J('sharedh.cpp', thorough_defs=['KS_STEPS=6'])], 'bounds': 'histories of 5 (thorough: 6) operations on 3 handles (construct, copy, move, copy- and move-assign including to itself, destroy, allocate of any 64-bit size and deallocate through any copy), plain and atomic counts; up to 70000 simultaneous handles', 'outside': 'longer histories; use of a moved-from handle other than assigning to, copying or destroying it'}

SPECS['B08'] = {'jobs': [J('wrap.cpp'), J('sharedh.cpp', entries=['plain', 'atomic', 'rebound'], defs=['KS_STEPS=4'])], 'bounds': 'two allocations of any 64-bit size, any address asked of owns(), any max_size(), deallocation in both orders through every kind of alias (copy, move, assignment, rebind, reference) for reference, global, threaded, shared, atomic_shared, type_allocator and nestings; equality over every pair of same and separate state; handle histories of 4 operations', 'outside': 'longer histories'}

SPECS['B09'] = {'jobs': [J('typed.cpp')], 'bounds': 'element sizes 1, 2, 3, 8, 24, 100, 4096; any 64-bit count; any max_size(); two requests', 'outside': 'other element sizes'}
SPECS['B12'] = {'jobs': [J('construct.cpp'), J('construct.cpp', tag='moveonly', defs=['MOVEONLY'], variants=['17']), J('wrap.cpp', entries=['fwd_*'])], 'bounds': 'every owner position and every combination of members with and without construct/destroy, any argument values (by value, by reference, move-only), directly and through allocator_traits of type_allocator', 'outside': 'trees of more than 3 members'}

COMPOSITIONS = '46 compositions of mallocator, linear, stack, freelist, segragator, fallback, cascading, overflow, reference, shared, threaded and global (harness/comps.h)'
LONG = '; on each of them, 10 blocks of 8 combinations of sizes from 1 to 100 bytes, given back in any rotation of either order up to any point, 3 more taken, then the rest in six orders'
SPECS['A02']['jobs'] += [J('comp.cpp', tag='walk', defs=['SET_WALK'], variants=['17'], thorough_defs=['KS_STEPS=4']), J('comp.cpp', tag='walk4', defs=['SET_WALK', 'KS_STEPS=4'], variants=['20d'])]
SPECS['A05']['jobs'].append(J('comp.cpp', tag='walk', defs=['SET_WALK'], thorough_defs=['KS_STEPS=4']))
SPECS['A03']['jobs'].append(J('comp.cpp', tag='twin', defs=['SET_TWIN'], thorough_defs=['KS_STEPS=4']))
SPECS['A03']['jobs'].append(J('cascade.cpp', quick_defs=['KS_STEPS=5']))
SPECS['A05']['jobs'].append(J('cascade.cpp', noreach=['refused']))
SPECS['A05']['jobs'].append(J('typed.cpp', entries=['t8', 't24']))
for p in ('A02', 'A03', 'A05'):
    SPECS[p]['bounds'] += '; histories of %s operations with any 64-bit size on ' % ('4' if p == 'A02' else '3 (thorough: 4)') + COMPOSITIONS + LONG
SPECS['B10'] = {'jobs': [J('comp.cpp', tag='give', defs=['SET_GIVE'], variants=['17'], thorough_defs=['KS_STEPS=4']), J('comp.cpp', tag='give4', defs=['SET_GIVE', 'KS_STEPS=4'], variants=['20d'])], 'bounds': 'histories of 4 operations with any 64-bit size, the base allocators refusing anywhere, on ' + COMPOSITIONS + LONG, 'outside': 'longer histories, other compositions'}
SPECS['B11'] = {'jobs': [J('comp.cpp', tag='contents', variants=['20d'], thorough_variants=['17', '20d'], defs=['SET_CONTENTS'], thorough_defs=['KS_STEPS=4'])], 'bounds': 'histories of 3 (thorough: 4) operations with any 64-bit size (the system serves up to 384 bytes), an arbitrary byte at an arbitrary position of every block, refused requests and queries in between, on 41 of the ' + COMPOSITIONS + LONG, 'outside': 'longer histories, other sizes'}
SPECS['F01'] = {'jobs': [J('comp.cpp', tag='fault', variants=['20d'], thorough_variants=['17', '20d'], defs=['SET_FAULT'], thorough_defs=['KS_STEPS=4'])], 'bounds': 'histories of 3 (thorough: 4) operations with any 64-bit size and up to two refused system requests at any point, on 41 of the ' + COMPOSITIONS + '; on each of them, 6 blocks of 5 combinations of sizes, given back in any rotation of either order up to any point, and 2 more taken', 'outside': 'longer histories, more than two refusals'}
VLARGE = J('vec.cpp', tag='large', defs=['SET_LARGE'])
ALARGE = J('arr.cpp', tag='large', defs=['SET_LARGE'])
LB = '; full and partly filled vectors of up to 33 (thorough: 64) elements followed by one operation of every kind at any position, or two resizes, reserves and range insertions of up to 64 elements'
SPECS['C01'] = {'jobs': [J('vec.cpp', tag='hist', defs=['SET_HIST'], thorough_defs=['KS_STEPS=3']), J('vec.cpp', tag='hist3', defs=['SET_HIST', 'KS_STEPS=3'], entries=['vec_u8'], variants=['20d']), VLARGE], 'bounds': 'every way of construction with up to 3 elements followed by any 2 (bytes, or thorough: 3) operations with any values and positions, element types of 1, 3, 4 and 16 bytes' + LB, 'outside': 'longer histories, larger vectors'}
SPECS['C02'] = {'jobs': [J('arr.cpp', tag='hist', defs=['SET_HIST', 'KS_STEPS=3'], thorough_defs=['KS_MORE']), ALARGE], 'bounds': 'every way of construction with up to 3 elements followed by any 3 (thorough: 4) operations with any values and positions, element types of 1, 3, 4 and 16 bytes; arrays of up to 33 elements followed by two of resizing to or assigning up to 64 elements, copying and writing; construction with and resizing to any count up to 2^43', 'outside': 'longer histories, larger arrays'}
HIST = [J('vec.cpp', tag='hist', defs=['SET_HIST'], thorough_defs=['KS_STEPS=3'], entries=['vec_u32', 'vec_odd'])]
HEAP = J('heap.cpp', tag='hist', defs=['SET_HIST'], thorough_defs=['KS_STEPS=4', 'KS_DEEP=8'])
HB = 'binary_heap: every way of construction with up to 3 elements, then any 3 (thorough: 4) operations and draining, and 7 (8) insertions and removals in any order, any keys with ties, both orders, plain, lifetime-tracking and move-only elements'
BIG = J('heap.cpp', tag='big', defs=['SET_BIG', 'KS_PQ=40'], thorough_defs=['KS_DRAIN=9'])
SPECS['C04'] = {'jobs': [dict(HEAP, variants=['20d'], thorough_variants=['17', '20d']), dict(BIG, variants=['20d'], thorough_variants=['17', '20d']), J('heap.cpp', tag='sort', defs=['SET_SORT'], thorough_defs=['KS_N=6'])], 'bounds': HB + '; any heap of up to 16 (25, 33) elements followed by an insertion or removal and one more removal (with heaps of up to 7 (thorough: 9) elements drained); binary_min_heap and binary_max_heap of 5 (thorough: 6) arbitrary integers', 'outside': 'longer histories, larger heaps'}
SPECS['C05'] = {'jobs': [dict(HEAP, entries=['heap_trk', 'heap_moveonly', 'deep_trk']), J('heap.cpp', tag='copy', defs=['SET_COPY'], entries=['hcopy_trk', 'hcopy_moveonly']), J('heap.cpp', tag='own', defs=['SET_OWN'], entries=['hown_trk']), dict(BIG, variants=['20d'], entries=['big_trk'])], 'bounds': HB + '; every form of copy, move, assignment and self-assignment of heaps of up to 3 elements', 'outside': 'longer histories, larger heaps'}
COPY = [J('vec.cpp', tag='copy', defs=['SET_COPY']), J('arr.cpp', tag='copy', defs=['SET_COPY']), J('heap.cpp', tag='copy', defs=['SET_COPY'])]
CB = 'every form of copy and move construction and assignment, with the same and another allocator, self-assignment, between containers of up to 3 elements with any contents, followed by any change to either; any 3 (binary_heap: 2) copies, moves, swaps and changes among three containers on three allocators'
SPECS['C06'] = {'jobs': HIST + [J('arr.cpp', tag='hist', defs=['SET_HIST', 'KS_STEPS=3'], thorough_defs=['KS_MORE'], entries=['arr_u32', 'arr_odd']), VLARGE, ALARGE, J('vec.cpp', tag='cap', defs=['SET_CAP'], entries=['vhuge*']), J('heap.cpp', tag='cap', defs=['SET_CAP'], entries=['hcap_huge']), dict(HEAP, entries=['heap_tag'])] + COPY, 'bounds': 'histories of 2 (thorough: 3) operations on trivial_vector, 3 (thorough: 4) on trivial_array and on binary_heap; ' + CB + LB + '; reserving, resizing and constructing with any count up to 2^43', 'outside': 'longer histories'}
SPECS['C07'] = {'jobs': COPY, 'bounds': CB, 'outside': 'larger containers'}
SPECS['C08'] = {'jobs': [J('vec.cpp', tag='own', defs=['SET_OWN']), J('heap.cpp', tag='own', defs=['SET_OWN'])], 'bounds': 'containers of up to 6 elements with any contents, with and without room, every element and position', 'outside': 'larger containers'}
SPECS['C09'] = {'jobs': HIST + [dict(HEAP, entries=['heap_tag']), VLARGE, J('vec.cpp', tag='cap', defs=['SET_CAP'], thorough_defs=['KS_FILL=300']), J('heap.cpp', tag='cap', defs=['SET_CAP'], thorough_defs=['KS_FILL=60'])], 'bounds': 'histories of 2 (thorough: 3) operations on trivial_vector, 3 (thorough: 4) on binary_heap; one growth step from every full container of up to 40 (thorough: 300) resp. 24 (60) elements; reserving, resizing and constructing with any count up to 2^43' + LB, 'outside': 'larger containers'}
SPECS['T01'] = {'jobs': [J('thread.cpp', tag='lock', defs=['SET_LOCK'], thorough_defs=['REST=2'])], 'bounds': 'two threads with programs of 2 and 1 (thorough: 2 and 2) calls each, or three with 1, any mix of allocate, deallocate, owns, max_size and comparison; every schedule with at most 2 preemptions (switches at blocking calls are not counted); data races are detected from happens-before, so for every schedule with the same order of synchronisation; sizes arbitrary up to 96 or from a menu that both fits and overflows the members; linear_allocator, freelist, cascading and a segragator/fallback tree below threaded, used through reference, atomic_shared, type_allocator and global',
    'outside': 'more threads, calls and preemptions; weak-memory effects beyond happens-before data races', 'assumptions': ['sequentially consistent interleaving of synchronisation operations; race freedom is checked with vector clocks that honour the memory orders of the code']}
SPECS['T02'] = {'jobs': [J('thread.cpp', tag='handles', defs=['SET_HANDLES'], thorough_defs=['REST=2'])], 'bounds': 'two threads with programs of 2 and 1 (thorough: 2 and 2) operations, or three with 1, each owning handles to two allocators: copy, copy from a common handle, assign, move, move-assign, self-assign, allocate (any 64-bit size) and deallocate, with the last handle dropped by any thread; every schedule with at most 2 preemptions',
    'outside': 'more threads, operations and preemptions; several threads changing one handle object (not allowed)', 'assumptions': ['sequentially consistent interleaving of synchronisation operations; race freedom is checked with vector clocks that honour the memory orders of the code']}
SPECS['S01'] = {'jobs': [J('stl.cpp', tag=t, defs=['SET=%d' % i], thorough_defs=['KS_STEPS=3']) for i, t in enumerate(('vector', 'list', 'map'))], 'bounds': 'std::vector, std::list and std::map of up to 2 elements each, on equal and on unequal allocators, followed by any 2 (thorough: 3) operations (insert, erase, copy, move, allocator-extended copy and move, assign, swap, clear, resize, splice, node extraction and merge), any 32-bit keys and values; over mallocator, shared linear, shared segragator/freelist, shared cascading, atomic_shared threaded fallback, reference and global',
    'outside': 'longer histories, other containers, allocators that run out of memory (the standard containers dereference null then)', 'assumptions': ['the non-inline libstdc++ functions of list and map are replaced by a transcription (harness/stl_rt.h) for the executor; the native replays use the real ones']}
VB = '; containers of 15 sizes between 200 and 70000 elements (mostly fixed contents), built in several ways, full and with room, followed by one operation of every kind at positions around 0, 255, 65535 and the end'
for p, d, e in (('C01', 'SET_VEC', None), ('C09', 'SET_VEC', None), ('C06', 'SET_VEC', None), ('C02', 'SET_ARR', None), ('C06', 'SET_ARR', ['avast_u8']), ('C07', 'SET_COPY', None), ('C06', 'SET_COPY', None), ('C08', 'SET_OWN', None), ('C04', 'SET_HEAP', None), ('C05', 'SET_HEAP', ['hvast_item', 'hvast_many'])):
    j = J('vast.cpp', tag='vast' + d[4:].lower(), defs=[d], variants=['20d'], thorough_variants=['17', '20d'])
    if e: j['entries'] = e
    SPECS[p]['jobs'] = SPECS[p]['jobs'] + [j]
    v = '; heaps of up to 66000 elements with keys in 5 fixed arrangements, drained, copied and moved' if d == 'SET_HEAP' else VB
    if not SPECS[p]['bounds'].endswith(v): SPECS[p]['bounds'] += v
# blocks of up to 16 TiB that exist as addresses only
for _p, _j in (('B02', J('route.cpp', entries=['fallback*'])), ('B03', J('route.cpp', entries=['segragator*'])), ('B07', J('sharedh.cpp', defs=['KS_STEPS=4'])), ('B08', J('wrap.cpp')), ('B09', J('typed.cpp', noreach=['refused'])), ('B10', J('comp.cpp', defs=['SET_GIVE'], entries=['give_*']))):
    SPECS[_p]['jobs'].append(dict(_j, tag='huge', defs=_j.get('defs', []) + ['KS_PHANTOM'], variants=['20d'])); SPECS[_p]['bounds'] += '; blocks of up to 16 TiB (as addresses, nothing is written to them)'
# the named typed allocators
for _p, _e in (('A01', ['linear*', 'stack*']), ('A03', ['linear*', 'stack*']), ('B01', ['freelist*']), ('B02', ['fallback*']), ('B03', ['segragator*']), ('B04', ['cascading*']), ('B05', ['overflow*']), ('B06', ['overflow*']), ('B07', ['*_shared', 'shared_any']), ('B08', ['*_reference', 'shared_any']), ('B09', ['*'])):
    SPECS[_p]['jobs'] = SPECS[_p]['jobs'] + [J('alias.cpp', tag='alias', entries=_e, variants=['17'], thorough_variants=['17', '20d'], thorough_defs=['KS_STEPS=4'])]; SPECS[_p]['bounds'] += '; the type_* aliases against the composition they stand for, over histories of 3 (4) operations'
SPECS['T02']['jobs'] = SPECS['T02']['jobs'] + [J('thread.cpp', tag='alias%d' % i, defs=['SET_HANDLES', 'ALIAS=%d' % i], variants=['17']) for i in (1, 2)]; SPECS['T02']['bounds'] += '; the same, with one operation each, through type_shared_threaded and type_atomic_shared'
# what needs move-only types is compiled apart: a change that makes copies instead then still meets the other harnesses
for _p in SPECS.values():
    for _j in list(_p['jobs']):
        if _j['src'] == 'heap.cpp' and ('SET_HIST' in _j['defs'] or 'SET_COPY' in _j['defs']) and any('moveonly' in e for e in _j.get('entries', ['moveonly'])):
            _p['jobs'].append(dict(_j, tag=_j['tag'] + '_mo', defs=_j['defs'] + ['KS_MOVEONLY'], entries=['*_moveonly']))
            if 'entries' in _j: _j['entries'] = [e for e in _j['entries'] if 'moveonly' not in e]
NOT_APPLICABLE = {}
