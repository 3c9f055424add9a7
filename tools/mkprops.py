import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":None}})
ROAR='src/roaring.c'; CON='src/containers/'
p('C01','Pairwise set operations compute exactly the set-theoretic result',
 'For any two 32-bit bitmaps, and / or / xor / andnot return a new bitmap whose members are exactly the intersection, union, symmetric difference or difference of the operands as sets of integers. Neither operand changes its contents, and the result is a well-formed bitmap independent of the operands.',
 ['inputs'],'all pairs of well-formed bitmaps: every combination of chunk keys, of array/bitset/run containers at every cardinality and run count, with or without copy-on-write (the same setting on both operands), aliased operands included',
 'the unit tests sample a few dozen shapes; the operation dispatches on 9 container type pairs times several size thresholds, galloping and SIMD paths, and a wrong answer on one boundary shape is invisible to them',
 [ROAR,'src/array_util.c',CON+'mixed_union.c',CON+'mixed_intersection.c',CON+'mixed_xor.c',CON+'mixed_andnot.c',CON+'array.c',CON+'bitset.c',CON+'run.c','include/roaring/containers/containers.h'],
 [('key merge loops','src/roaring.c roaring_bitmap_and/or/xor/andnot'),('container dispatch','include/roaring/containers/containers.h container_and/or/xor/andnot'),('sorted-array kernels','src/array_util.c intersect/union/difference/xor'),('bitset kernels','src/containers/bitset.c'),('run kernels','src/containers/run.c')],
 [('high_low_container','keys, typecodes and containers of a bitmap','include/roaring/roaring_types.h')],['roaring_bitmap_and','roaring_bitmap_or','roaring_bitmap_xor','roaring_bitmap_andnot'])
p('C02','In-place set operations equal their out-of-place counterparts',
 'and_inplace, or_inplace, xor_inplace and andnot_inplace leave in the first operand exactly the intersection, union, symmetric difference or difference of the two original sets. The second operand keeps its contents, also when the first operand is modified further afterwards.',
 ['inputs'],'all pairs of well-formed bitmaps (same copy-on-write setting), all container type pairs, containers that are shared with other bitmaps, a bitmap intersected with itself',
 'in-place code reuses or frees the container it modifies depending on types, capacities and result sizes; tests exercise few of these combinations and rarely look at the other operand afterwards',
 [ROAR,CON+'mixed_union.c',CON+'mixed_intersection.c',CON+'mixed_xor.c',CON+'mixed_andnot.c','include/roaring/containers/containers.h','src/roaring_array.c'],
 [('in-place key merges','src/roaring.c roaring_bitmap_*_inplace'),('container_iand/ior/ixor/iandnot','include/roaring/containers/containers.h'),('ownership transfer between arrays','src/roaring_array.c')],(),['roaring_bitmap_and_inplace','roaring_bitmap_or_inplace','roaring_bitmap_xor_inplace','roaring_bitmap_andnot_inplace'])
p('C03','Counting and comparison queries agree with the sets they describe',
 'Cardinality, emptiness, and/or/xor/andnot cardinality, intersect, equals, subset, strict subset, Jaccard index, intersect-with-range and the reported statistics equal the values computed from the two sets as mathematical sets. They do not depend on how the bitmaps are represented, and they modify nothing.',
 ['inputs'],'all pairs of well-formed bitmaps in any representation, all range bounds',
 'each query has its own code path per container type pair with early exits; equality across representations is sampled only lightly by the tests',
 [ROAR,CON+'mixed_equal.c',CON+'mixed_subset.c',CON+'mixed_intersection.c',CON+'mixed_union.c','src/array_util.c',CON+'run.c',CON+'bitset.c',CON+'array.c'],
 [('count-only kernels','src/array_util.c, src/containers/bitset.c'),('mixed subset / equality','src/containers/mixed_subset.c, mixed_equal.c')],(),['roaring_bitmap_and_cardinality','roaring_bitmap_equals','roaring_bitmap_is_subset','roaring_bitmap_intersect'])
p('C04','Aggregate and lazy unions and xors equal folding the pairwise operation',
 'or_many, or_many_heap and xor_many over any list of bitmaps, and any sequence of lazy or / lazy xor steps followed by repair, yield exactly the set obtained by folding the ordinary union or symmetric difference. The result is well formed after repair and no input is modified.',
 ['inputs','histories'],'all finite lists of bitmaps (empty, single, repeated pointers), all sequences of lazy operations with and without bitset conversion, ended by repair',
 'lazy containers carry an unknown cardinality and unusual types that only appear in the middle of such sequences; tests use a few fixed lists',
 [ROAR,'src/roaring_priority_queue.c','include/roaring/containers/containers.h',CON+'mixed_union.c',CON+'mixed_xor.c'],
 [('lazy container ops','include/roaring/containers/containers.h container_lazy_*'),('repair','src/roaring.c roaring_bitmap_repair_after_lazy'),('heap union','src/roaring_priority_queue.c')],(),['roaring_bitmap_or_many','roaring_bitmap_or_many_heap','roaring_bitmap_xor_many','roaring_bitmap_lazy_or'])
p('C05','Point updates and membership behave like a mathematical set',
 'After any sequence of single-value and bulk additions and removals, a value is reported as contained exactly when its last update added it. Checked variants report whether the set changed, bulk operations with a context equal the one-by-one operations, and remove_many / add_many accept values in any order with duplicates.',
 ['inputs','histories'],'all histories of add, remove, add_many, remove_many, add_bulk, contains, contains_bulk over all 32-bit values and all starting bitmaps',
 'correctness depends on the representation reached by the history (conversions at 4096 values, run splits and merges, cached contexts); tests cover a few histories',
 [ROAR,CON+'array.c',CON+'run.c',CON+'bitset.c','include/roaring/containers/containers.h','src/roaring_array.c'],
 [('container_add / container_remove / container_contains','include/roaring/containers/containers.h'),('run insertion and removal','src/containers/run.c'),('bulk context','src/roaring.c')],(),['roaring_bitmap_add','roaring_bitmap_remove','roaring_bitmap_contains','roaring_bitmap_add_bulk'])
p('C06','Range operations affect exactly the requested interval',
 'Adding, removing, flipping or creating a range (with step), testing a range for containment and counting values in a range act exactly on the integers of the requested interval, for closed and half-open forms. Values outside the interval are untouched and empty or reversed intervals have no effect.',
 ['inputs'],'all bitmaps and all interval bounds up to 2^32, all steps',
 'the interesting cases are at word, container and 2^32 boundaries combined with every container type; tests sample a handful',
 [ROAR,'include/roaring/bitset_util.h','src/bitset_util.c',CON+'mixed_negation.c',CON+'run.c',CON+'bitset.c','include/roaring/containers/containers.h'],
 [('word-range primitives','include/roaring/bitset_util.h'),('container_add_range / remove_range','include/roaring/containers/containers.h'),('range negation','src/containers/mixed_negation.c')],(),['roaring_bitmap_add_range_closed','roaring_bitmap_remove_range_closed','roaring_bitmap_flip','roaring_bitmap_from_range','roaring_bitmap_contains_range'])
p('C07','Rank, select, index, minimum and maximum follow the sorted order',
 'For every bitmap, rank(x) is the number of members not above x, select(k) is the k-th smallest member (and fails exactly when there is none), get_index is the position of a member or -1, and minimum and maximum are the extreme members. rank_many gives the same answers as rank for sorted queries.',
 ['inputs'],'all bitmaps, all query values and ranks',
 'off-by-one errors at container, word and run boundaries need specific positions that tests hit by chance only',
 [ROAR,CON+'array.c',CON+'bitset.c',CON+'run.c','include/roaring/containers/containers.h'],
 [('container_rank / select / get_index','include/roaring/containers/containers.h'),('per-type implementations','src/containers/*.c, include/roaring/containers/*.h')],(),['roaring_bitmap_rank','roaring_bitmap_select','roaring_bitmap_get_index','roaring_bitmap_rank_many'])
p('C08','Every operation returns a well-formed bitmap, and the validator knows it',
 'Every bitmap produced by the public API has strictly increasing keys, no empty containers, arrays that are sorted and hold at most 4096 values, bitsets whose stored cardinality is exact and above 4096, and runs that are sorted and neither overlap nor touch. The internal validator accepts every such bitmap and rejects one that breaks any of these rules.',
 ['inputs','histories'],'all histories of public operations; all corruptions of one structural rule for the validator',
 'a malformed but lookup-correct bitmap passes content tests and fails much later, in another operation or in serialization',
 [ROAR,'src/roaring_array.c','include/roaring/containers/containers.h',CON+'convert.c',CON+'array.c',CON+'run.c',CON+'bitset.c'],
 [('conversions','src/containers/convert.c'),('validators','roaring_bitmap_internal_validate, *_container_validate')],(),['roaring_bitmap_internal_validate'])
p('C09','Serialization round-trips exactly and within the announced size',
 'Portable, native and frozen serialization write exactly the announced number of bytes and nothing beyond, and reading the bytes back with the matching reader yields a bitmap equal to the original. The portable bytes follow the published RoaringFormatSpec layout, so that other implementations read them.',
 ['inputs'],'all bitmaps in any representation, shared (copy-on-write) containers included',
 'headers change with the presence of run containers and the number of containers, and container payloads with type and cardinality; tests check sizes and round trips on few shapes',
 ['src/roaring_array.c',ROAR,CON+'array.c',CON+'bitset.c',CON+'run.c'],
 [('ra_portable_serialize / ra_portable_size_in_bytes','src/roaring_array.c'),('frozen format','src/roaring.c'),('native format','src/roaring.c')],(),['roaring_bitmap_portable_serialize','roaring_bitmap_serialize','roaring_bitmap_frozen_serialize'])
p('C10','Bounded deserialization of arbitrary bytes is memory safe',
 'The size-checked deserializers and the serialized-size probe, given any byte buffer and length, never read outside the buffer, never corrupt memory and always terminate. They either fail cleanly or return a bitmap that can be validated and freed; if it passes validation, it is safe to use.',
 ['inputs'],'all byte strings of all lengths, truncations and corruptions of valid encodings included',
 'the adversarial input space is unbounded; the tests hold a few crafted files',
 ['src/roaring_array.c',ROAR,CON+'array.c',CON+'bitset.c',CON+'run.c','src/art/art.c','src/roaring64.c'],
 [('bounds checks','src/roaring_array.c ra_portable_deserialize, ra_portable_deserialize_size'),('frozen_view checks','src/roaring.c')],(),['roaring_bitmap_portable_deserialize_safe','roaring_bitmap_deserialize_safe','roaring_bitmap_frozen_view','roaring_bitmap_portable_deserialize_size'])
p('C11','Iterators and extraction visit every member once, in order',
 'Iterators, callback iteration, array extraction and ranged extraction produce the members in strictly increasing order, each exactly once, from any starting point. Moving forward, backward, skipping, seeking to a value and bulk reads can be mixed freely and always leave the iterator at the position the sorted sequence defines.',
 ['inputs','histories'],'all bitmaps and all sequences of iterator operations',
 'iterator state is a cached container position plus a word or run offset; only mixed sequences at boundaries expose stale state',
 [ROAR,'src/bitset_util.c',CON+'array.c',CON+'bitset.c',CON+'run.c','include/roaring/containers/containers.h'],
 [('roaring_uint32_iterator_*','src/roaring.c'),('container iterators','src/containers/containers.c, containers.h'),('bit extraction','src/bitset_util.c')],(),['roaring_uint32_iterator_advance','roaring_uint32_iterator_move_equalorlarger','roaring_uint32_iterator_read','roaring_bitmap_to_uint32_array'])
p('C12','Copies are independent, with or without copy-on-write',
 'A copy equals the original when it is made, and afterwards no operation on one of them changes the contents of the other, for eager copies and for copy-on-write copies alike. All storage is released exactly once when every copy has been freed, in any order.',
 ['inputs','histories'],'all histories of copies, overwrites, modifications and frees among a family of bitmaps with one copy-on-write setting',
 'sharing bugs need a copy, then a specific modification, then a look at (or free of) the other bitmap',
 [ROAR,'src/roaring_array.c','include/roaring/containers/containers.h','src/containers/containers.c'],
 [('shared containers and their counters','src/containers/containers.c get_copy_of_container, shared_container_extract_copy, shared_container_free'),('unsharing before writes','ra_unshare_container_at_index')],[('shared_container_s.counter','number of owners','include/roaring/containers/containers.h')],['roaring_bitmap_copy','roaring_bitmap_overwrite','roaring_bitmap_free'])
p('C13','Representation changes never change the contents',
 'run_optimize, remove_run_compression, shrink_to_fit, conversion to and from a bitset and adding an offset (which shifts every member, dropping those that leave the 32-bit range) change only the representation or apply exactly the stated shift. run_optimize reports whether a run container is present and never makes the serialized form larger.',
 ['inputs'],'all bitmaps, all offsets',
 'conversions pick a representation by size comparisons and rewrite the whole container; offsets split containers at arbitrary positions',
 [ROAR,CON+'convert.c',CON+'array.c',CON+'bitset.c',CON+'run.c','include/roaring/containers/containers.h'],
 [('convert_run_optimize and friends','src/containers/convert.c'),('*_container_offset','src/containers/*.c')],(),['roaring_bitmap_run_optimize','roaring_bitmap_remove_run_compression','roaring_bitmap_add_offset','roaring_bitmap_to_bitset'])
p('C14','The 64-bit bitmap behaves like a set of 64-bit integers',
 'For the 64-bit bitmap, point, bulk and range updates, membership, rank, select, minimum, maximum, cardinality, comparisons and the and / or / xor / andnot operations (new and in place) and flips equal the same operations on a mathematical set of 64-bit integers. Operands that are not the target keep their contents.',
 ['inputs','histories'],'all 64-bit bitmaps and all histories of operations over the whole 64-bit range',
 'the radix tree has four node sizes with growth, shrink and path-compression cases that depend on the exact key distribution',
 ['src/roaring64.c','src/art/art.c'],
 [('adaptive radix tree','src/art/art.c'),('leaf merge loops','src/roaring64.c')],(),['roaring64_bitmap_add','roaring64_bitmap_and','roaring64_bitmap_rank','roaring64_bitmap_flip'])
p('C15','64-bit serialization and iteration are faithful',
 'The 64-bit portable and frozen formats write exactly the announced size and read back to an equal bitmap, and reading truncated or corrupt bytes with the size-checked readers fails cleanly without memory errors. 64-bit iterators visit members in order under any mix of forward, backward, seek and bulk reads.',
 ['inputs','histories'],'all 64-bit bitmaps, all byte strings, all sequences of iterator operations',
 'iterator state spans the tree position and the container position; corrupt inputs are unbounded',
 ['src/roaring64.c','src/art/art.c'],
 [('roaring64_bitmap_portable_*','src/roaring64.c'),('roaring64_iterator_*','src/roaring64.c'),('art_iterator_*','src/art/art.c')],(),['roaring64_bitmap_portable_serialize','roaring64_iterator_read','roaring64_bitmap_frozen_view'])
p('C16','The plain bitset behaves like an array of bits of unbounded length',
 'For the uncompressed bitset, setting, reading, resizing, shifting, trimming, counting, minimum, maximum, comparisons, unions, intersections, differences, symmetric differences with their counts, and next/previous style iteration give the results of the same operations on an infinite zero-padded bit sequence. Sizes may differ between operands.',
 ['inputs','histories'],'all bitsets of all sizes and all sequences of operations',
 'operands of different lengths, growth with stale capacity and shifts across word boundaries are sampled by few tests',
 ['src/bitset.c','include/roaring/bitset/bitset.h'],
 [('bitset_* functions','src/bitset.c, include/roaring/bitset/bitset.h')],[('arraysize/capacity','words in use and allocated','include/roaring/bitset/bitset.h')],['bitset_set','bitset_inplace_union','bitset_shift_left','bitset_next_set_bit'])
p('C17','Results do not depend on the CPU features detected at run time',
 'Every operation yields bit-for-bit the same outcome (contents, counts and representation) whether the portable, AVX2 or AVX-512 implementations are selected at run time.',
 ['inputs','configurations'],'all inputs of the dispatched operations, all detected feature sets',
 'a test run exercises only the implementations of the machine it runs on',
 ['src/array_util.c','src/bitset_util.c',CON+'bitset.c',CON+'array.c',CON+'run.c',CON+'convert.c','src/isadetection.c'],
 [('croaring_hardware_support dispatch','src/isadetection.c and each dispatched function'),('vector kernels','src/array_util.c, src/bitset_util.c, src/containers/bitset.c')],(),['croaring_hardware_support'])
p('C18','The C++ wrappers behave like sets of 32- and 64-bit integers',
 'The C++ Roaring and Roaring64Map classes give, for updates, set algebra, comparisons, rank and select, iteration and serialization, the results of the same operations on a mathematical set of integers. Empty inner bitmaps never influence an answer.',
 ['inputs','histories'],'all maps, with any pattern of missing and empty inner bitmaps, and all histories of operations',
 'the outer map adds its own merge, range and iterator logic with boundary cases at multiples of 2^32',
 ['cpp/roaring.hh','cpp/roaring64map.hh'],
 [('outer map merges','cpp/roaring64map.hh'),('iterators','cpp/roaring64map.hh')],(),['Roaring64Map::operator|=','Roaring64Map::addRangeClosed','Roaring64MapSetBitBiDirectionalIterator'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
