"""Table of the monitor units of each property."""

HARNESS = {
    # harness: {src, std, flags, link, nolib}
}
TABLE, RULE, ASSUME, LEVEL, EXPECT = {}, {}, {}, {}, {}
ASSUME_ALL = ['x86-64 with AVX2/BMI2, the system libzstd, one machine; held on the executions counted here only']


def U(harness, variant, quick, thorough, shards=8, name=None, weight=1, **kw):
    n = name or '%s@%s' % (harness, variant)
    d = dict(name=n, harness=harness, variant=variant, cases_quick=quick, cases_thorough=thorough, shards=shards, weight=weight)
    d.update(kw)
    return d


def units(pid, tier):
    return [u for u in TABLE.get(pid, []) if u['cases_' + tier]]


SBS = ['superblock_' + x for x in ('BLOCK', 'ZSTD', 'TRANSPOSED_ZSTD', 'TRANSPOSED_DELTA_ZSTD', 'BLOCK_ZSTD', 'COPY')]
ROWS = ['row_header_%02d' % i for i in range(16)]

# ---------------------------------------------------------------------------------------------- P01
TABLE['P01'] = [
    U('h_rt', 'native', 24000, 600000),
    U('h_rt', 'generic', 4000, 100000, args=dict(ref='0')),
    U('h_rt', 'sse41', 5000, 120000, args=dict(ref='0')),
    U('h_huge', 'native', 1, 12, shards=1, weight=8),
]
RULE['P01'] = 'case i = (element size, size, content kind, level, threads, block shift, buffer alignments) drawn from (seed,i); non-trivial = non-empty input; distinct = distinct (element size, size, level, compressed bytes)'
EXPECT['P01'] = SBS + ROWS + ['plane_type_%d' % i for i in range(4)] + ['block_lz', 'block_partial', 'lz_far', 'huge_inputs', 'largest_superblocks']

# ---------------------------------------------------------------------------------------------- P02
TABLE['P02'] = [U('h_bound', 'native', 9000, 250000), U('h_bound', 'asan', 1600, 40000, name='h_bound@asan')]
RULE['P02'] = 'each evaluation is one compression into a destination of a chosen size placed against inaccessible pages, source likewise; distinct = distinct (input, destination size, result)'
EXPECT['P02'] = ['short_dst_errors', 'short_dst_successes', 'full_dst_successes', 'worst_case_inputs']

# ---------------------------------------------------------------------------------------------- P04, P05
TABLE['P04'] = [
    U('h_hostile', 'asan', 30000, 250000),
    U('h_hostile', 'asan-generic', 14000, 120000),
    U('h_hostile', 'asan-sse41', 8000, 60000),
    U('h_fuzz', 'fuzz', 0, 30000000, args=dict(scratch='{SCRATCH}')),
]
ZSTD_REGION_WRAP = ['-Wl,--wrap=ZSTD_decompress,--wrap=ZSTD_decompressDCtx']
HARNESS['h_hostile'] = dict(link=ZSTD_REGION_WRAP)
HARNESS['h_fuzz'] = dict(link=['-Wl,--whole-archive', '{FUZZER}', '-Wl,--no-whole-archive'])
RULE['P04'] = 'each evaluation decodes one byte string (forged from the format grammar, mutated from a real frame, spliced, or garbage) under ASan+UBSan in exactly sized blocks; distinct = distinct (bytes, result)'
EXPECT['P04'] = ['rejected', 'decoded', 'forged_decoded', 'zstd_regions_checked']
TABLE['P05'] = [U('h_trunc', 'native', 8000, 150000), U('h_trunc', 'generic', 3000, 40000), U('h_trunc', 'asan', 1600, 20000)]
RULE['P05'] = 'each evaluation decodes one truncated frame, or one frame into a short destination, or one (possibly mutated) frame twice under different memory contents; distinct = distinct (bytes, cut or result)'
EXPECT['P05'] = ['truncations', 'short_destinations', 'mutants_decoded', 'mutants_rejected', 'intact_decoded']

# ---------------------------------------------------------------------------------------------- P03
VG = ['valgrind', '-q', '--error-exitcode=99', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect', '--show-leak-kinds=definite,indirect', '--num-callers=12', '--fair-sched=yes']
TABLE['P03'] = [
    U('h_mem', 'asan', 5000, 150000),
    U('h_mem', 'asan-generic', 1200, 40000),
    U('h_mem', 'valgrind', 240, 6000, wrap=VG),
]
RULE['P03'] = 'each evaluation is one compress/info/decompress sequence within a context history, buffers exactly sized on the heap, under ASan+UBSan+LSan or valgrind memcheck (definedness of every produced byte); distinct = distinct (element size, size, frame)'
EXPECT['P03'] = ['time_limited', 'unlimited']

# ---------------------------------------------------------------------------------------------- P06..P09
TABLE['P06'] = [U('h_threads', 'native', 2400, 60000), U('h_threads', 'tsan', 240, 8000)]
RULE['P06'] = 'each evaluation compares one compression or decompression with n>1 threads with the single-threaded one, random delays injected at the pool mutexes; non-trivial = more than one superblock; distinct = distinct (bytes, thread count)'
EXPECT['P06'] = ['multi_superblock_inputs', 'compressions_compared', 'rejected_by_both', 'decoded_by_both', 'max:injected_delays_per_shard']
TABLE['P07'] = [U('h_conc', 'native', 1600, 40000, shards=4, weight=2), U('h_conc', 'tsan', 160, 4000, shards=4, weight=2, args=dict(callers='10', cap='20000'))]
RULE['P07'] = 'each evaluation is one round of 2..24 caller threads issuing calls that share the process-wide pool, under ThreadSanitizer or with random delays at every mutex/condition operation; non-trivial = at least two calls really overlapped; distinct = distinct workloads'
EXPECT['P07'] = ['calls', 'max:simultaneous_calls', 'max:injected_delays_per_shard']
TABLE['P08'] = [U('h_ctx', 'native', 5000, 120000), U('h_ctx', 'asan', 600, 16000)]
RULE['P08'] = 'each evaluation is one operation of a random context history compared with the same operation on a new context; distinct = distinct histories of results'
EXPECT['P08'] = ['compressions_compared', 'failures_compared', 'decompressions_compared', 'time_limited_operations']
TABLE['P09'] = [U('h_det', 'native', 6000, 160000), U('h_det', 'generic', 1500, 40000)]
RULE['P09'] = 'each evaluation is one compression of the same input with another stack paint, heap fill, alignment, destination room or context history, compared bytewise; distinct = distinct (frame, memory state)'
EXPECT['P09'] = ['compressions', 'partial_blocks']

TECH = {
    'P01': 'runtime monitoring: round-trip oracle plus independent reference decoder over generated inputs, several instruction set builds',
    'P02': 'runtime monitoring: guard pages and sentinels around exactly sized buffers, ASan',
    'P03': 'ASan + UBSan + LSan and valgrind memcheck over generated API histories',
    'P04': 'ASan + UBSan over forged and mutated frames with a result oracle and a watchdog',
    'P05': 'runtime monitoring: guard pages, differential decoding under different memory contents',
    'P06': 'runtime monitoring: differential oracle against one thread, delay injection at the pool locks, TSan',
    'P07': 'TSan and delay-injected stress with per-call oracle and deadlock watchdog',
    'P08': 'runtime monitoring: differential oracle against a fresh context over random histories, ASan',
    'P09': 'runtime monitoring: differential oracle across stack paint, heap fill, alignment and history',
}
NOTE = {}

# ---------------------------------------------------------------------------------------------- P10
TABLE['P10'] = [U('h_time', 'native', 1600, 80000), U('h_time', 'asan', 260, 12000), U('h_time', 'tsan', 100, 4000)]
RULE['P10'] = 'each evaluation is one time-limited compression under a virtual clock (slow, jumping past the limit at a chosen reading, random, frozen, going back, expired at once); distinct = distinct (input size, frame, clock behaviour)'
EXPECT['P10'] = ['limits_crossed', 'superblocks_after_limit', 'limits_never_approached', 'single_block_superblocks', 'unlimited_after_limited', 'repetitions', 'limits_never_approached_compressible'] + ['frames_with_superblock_code_%d' % i for i in range(1, 7)]
TECH['P10'] = 'runtime monitoring: virtual clock by interposition, superblock methods of the frame checked against the clock, round-trip oracle, ASan, TSan'

# ---------------------------------------------------------------------------------------------- P21
TABLE['P21'] = [U('h_timer', 'native', 40000, 2000000), U('h_timer', 'asan', 6000, 200000)]
RULE['P21'] = 'each evaluation is one elapsed time read under an interposed clock; non-trivial = the clock moved; distinct = distinct (start reading, end reading, API)'
EXPECT['P21'] = ['borrows', 'whole_seconds', 'real_clock_runs', 'clock_readings']
TECH['P21'] = 'runtime monitoring: exact oracle on readings of an interposed monotonic clock'

# ---------------------------------------------------------------------------------------------- P11
HARNESS['stlib'] = dict(src=[])
HARNESS['h_isa'] = dict(nolib=True)
ISAS = ['native', 'avx2', 'sse41', 'generic', 'no-avx2', 'no-bmi2', 'no-sse41', 'no-simd']
TABLE['P11'] = [U('h_isa', 'native', 4500, 150000, libs={'lib_' + v: ('stlib', v + '+shared') for v in ISAS})]
RULE['P11'] = 'each evaluation decodes a frame of one build (4 compilations x 4 run-time CPU feature masks) with another build; identical frames of two producers are decoded once; distinct = distinct (producer, consumer, frame)'
EXPECT['P11'] = ['frames_of_no-simd', 'frames_of_avx2', 'frames_of_generic'] + ['decoded_by_' + v for v in ISAS]
TECH['P11'] = 'runtime monitoring: differential cross-decoding matrix over instruction-set builds and hidden CPU features'

# ---------------------------------------------------------------------------------------------- P12
TABLE['P12'] = [U('h_info', 'native', 5000, 200000), U('h_info', 'asan', 600, 20000), U('h_huge', 'native', 1, 6, shards=1, weight=8, args=dict(salt='12'))]
RULE['P12'] = 'each evaluation is one stenos_get_info call on a prefix of a produced frame (checked against the input) or on an altered frame (checked against decompression); distinct = distinct (bytes, length, outcome)'
EXPECT['P12'] = ['huge_inputs', 'short_prefixes', 'full_headers', 'multi_superblock_frames', 'altered_refused', 'altered_described', 'altered_decoded', 'announced_rooms'] + ['shift_%d' % i for i in (0, 1, 2, 3, 4, 255)]
TECH['P12'] = 'runtime monitoring: oracle on header information against known inputs, reference decoder and decompression results, guard pages, ASan'

# ---------------------------------------------------------------------------------------------- P13
WRAP = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=posix_memalign']
HARNESS['h_alloc'] = dict(flags=['-fno-builtin'])
HARNESS['h_allocw'] = dict(src=['h_alloc.cpp'], flags=['-fno-builtin'], link=WRAP)
TABLE['P13'] = [U('h_alloc', 'native', 640, 30000), U('h_allocw', 'asan', 160, 6000)]
RULE['P13'] = 'each evaluation is one compression (often followed by one decompression) during which chosen allocation ordinals fail, then a check that the context recovers; non-trivial = at least one allocation was really refused; distinct = distinct (input, ordinal, mode, outcome)'
EXPECT['P13'] = ['injected_failures', 'compressions_refused', 'compressions_that_survived', 'decompressions_refused', 'contexts_refused', 'timers_refused', 'first_use_failures']
TECH['P13'] = 'runtime monitoring with allocation fault injection at every ordinal reached, result and recovery oracle, ASan + LSan'

# ---------------------------------------------------------------------------------------------- P22
TABLE['P22'] = [U('h_param', 'native', 3600, 250000), U('h_param', 'asan', 400, 20000)]
RULE['P22'] = 'each evaluation is one history of parameter settings (valid, out of range, extreme) and refused calls, then a compression compared with a new context given the clamped values; distinct = distinct (settings, result)'
EXPECT['P22'] = ['levels_out_of_range', 'threads_out_of_range', 'block_shifts_refused', 'block_shifts_accepted', 'invalid_element_sizes', 'invalid_superblocks', 'valid_compressions', 'empty_inputs']
TECH['P22'] = 'runtime monitoring: model of the documented parameter rules against return codes, written bytes and produced frames, ASan + UBSan'

# ---------------------------------------------------------------------------------------------- P25
TABLE['P25'] = [
    U('h_golden', 'native', 6000, 20000, args=dict(golden='{HERE}/golden/frames.bin')),
    U('h_golden', 'generic', 3000, 20000, args=dict(golden='{HERE}/golden/frames.bin')),
    U('h_rt', 'native', 12000, 400000, name='h_rt_format@native', args=dict(key='format', cap='200000', salt='25')),
    U('h_rt', 'generic', 4000, 100000, name='h_rt_format@generic', args=dict(key='format', cap='100000', salt='26')),
]
RULE['P25'] = 'each evaluation decodes one golden frame of the pinned version, or decodes one frame written now with the independent reference decoder; distinct = distinct frames'
EXPECT['P25'] = ['golden_frames', 'golden_lz_blocks', 'golden_copy_blocks', 'golden_partial_blocks'] + ['golden_superblock_code_%d' % i for i in range(1, 7)] + ['golden_row_%02d' % i for i in range(16)] + SBS + ROWS
TECH['P25'] = 'runtime monitoring: golden frames of the pinned version and an independent reference decoder as oracle'


# ---------------------------------------------------------------------------------------------- P26
TABLE['P26'] = [
    U('h_eff', 'native', 5200, 60000, args=dict(sizes='{HERE}/golden/sizes-native.txt')),
    U('h_eff', 'generic', 3600, 20000, args=dict(sizes='{HERE}/golden/sizes-generic.txt', block='0')),
]
RULE['P26'] = 'each evaluation compresses one input of a fixed corpus (its size is compared with the one recorded with the pinned version) or one fresh constant, incompressible or level 0 input; distinct = distinct (input, frame size)'
EXPECT['P26'] = ['corpus_inputs_compared', 'constant_inputs', 'level0_inputs', 'incompressible_inputs']
TECH['P26'] = 'runtime monitoring: frame sizes against recorded sizes of the pinned version and absolute size rules'


# ---------------------------------------------------------------------------------------------- P14, P15, P16
HARNESS['h_cv'] = dict(probes=['const_reverse', 'ratio', 'for_each_bool', 'element_assign'], src=['h_cv.cpp'] + ['cv_i%02d.cpp' % i for i in range(14)])
TABLE['P14'] = [U('h_cv', 'native', 14000, 400000, args=dict(mode='model')), U('h_cv', 'asan', 2400, 60000, args=dict(mode='model', salt='114'))]
RULE['P14'] = 'each evaluation is one random history of 10..70 operations on compressed vectors of one of 14 element types and block sizes, compared with std::vector after every operation; distinct = distinct histories'
EXPECT['P14'] = ['operations'] + ['op_%02d' % i for i in range(35)] + ['verify_%d' % i for i in range(10)] + ['config_%d' % i for i in range(14)]
TECH['P14'] = 'runtime monitoring: model-based differential histories against std::vector'
TABLE['P15'] = [U('h_cv', 'native', 9000, 240000, args=dict(mode='life', salt='115')), U('h_cv', 'asan', 1800, 40000, args=dict(mode='life', salt='15'))]
RULE['P15'] = 'each evaluation is one random history with elements that carry a token registered at construction and destruction, and an allocator that records every block and its size; distinct = distinct histories'
EXPECT['P15'] = ['operations', 'elements_constructed', 'elements_destroyed', 'allocator_blocks']
TECH['P15'] = 'runtime monitoring: ledger of object lifetimes and allocator blocks over random histories, ASan + LSan'
TABLE['P16'] = [U('h_cv', 'native', 9000, 300000, args=dict(mode='exc', salt='16')), U('h_cv', 'asan', 2000, 50000, args=dict(mode='exc', salt='116'))]
RULE['P16'] = 'each evaluation is one random history in which about half of the operations run with an element or allocation fault armed at a random ordinal; distinct = distinct histories'
EXPECT['P16'] = ['exc_element_faults', 'exc_alloc_faults', 'exc_for_each'] + ['exc_op_%02d' % i for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 14, 15, 16)]
TECH['P16'] = 'runtime monitoring: exception injection into elements and allocator, state oracle and ledgers, ASan + LSan'


# ---------------------------------------------------------------------------------------------- P17
HARNESS['h_cvconc'] = dict(link=['-Wl,--wrap=stenos_private_compress_block,--wrap=stenos_private_decompress_block'])
TABLE['P17'] = [U('h_cvconc', 'native', 2400, 100000, shards=4, weight=2), U('h_cvconc', 'tsan', 300, 10000, shards=4, weight=2, args=dict(salt='117'))]
RULE['P17'] = 'each evaluation is one round of 2..10 threads on one compressed vector (readers of any kind, or readers and writers of the for_each family), random delays in functors, allocations and lock operations; afterwards every element must have received exactly the modifications logged; distinct = distinct rounds'
EXPECT['P17'] = ['chunks_compressed_in_rounds', 'chunks_decompressed_in_rounds', 'modifications', 'read_only_rounds', 'mixed_rounds', 'writer_only_rounds', 'independent_rounds', 'injected_delays', 'max:simultaneous_calls']
TECH['P17'] = 'TSan and delay-injected stress, conservation oracle over logged modifications, torn-element detection, deadlock watchdog'


# ---------------------------------------------------------------------------------------------- P18
HARNESS['h_cvser'] = dict(src=['h_cvser.cpp', 'cvser_0.cpp', 'cvser_1.cpp', 'cvser_2.cpp'], probes=['istreambuf'])
TABLE['P18'] = [U('h_cvser', 'native', 6000, 100000, args=dict(scratch='{SCRATCH}')), U('h_cvser', 'asan', 900, 10000, args=dict(scratch='{SCRATCH}', salt='118'))]
RULE['P18'] = 'each evaluation is one compressed vector serialized to memory (ample, exact and too small), to a stream among other frames, to a callback and to a file, decoded by the plain codec and by the reference decoder, and deserialized by vectors of another level; plus a plain frame of the same content deserialized; distinct = distinct serialized bytes'
EXPECT['P18'] = ['plain_frames_shift_255', 'plain_frames_shift_0', 'to_memory', 'to_stream', 'to_callback', 'to_file', 'plain_decodings', 'plain_frames', 'deserialized'] + ['config_%d' % i for i in range(12)]
TECH['P18'] = 'runtime monitoring: round-trip oracle with the plain codec and an independent reference decoder, guard pages, ASan + UBSan'


# ---------------------------------------------------------------------------------------------- P19
HARNESS['h_cvhostile'] = dict(link=ZSTD_REGION_WRAP)
TABLE['P19'] = [U('h_cvhostile', 'asan', 1600, 80000), U('h_cvhostile', 'native', 4000, 150000, args=dict(salt='119')), U('h_fuzz', 'fuzz', 0, 20000000, name='h_fuzz_cv@fuzz', args=dict(scratch='{SCRATCH}', mode='cv'))]
RULE['P19'] = 'each evaluation is one byte string (forged, mutated, truncated, garbage) or one broken stream deserialized into a vector, then compared with plain decompression, read and reused; distinct = distinct (bytes, outcome)'
EXPECT['P19'] = ['from_memory', 'from_stream', 'streams_failed', 'streams_read', 'streams_thrown', 'both_accept', 'accepted_not_by_plain', 'accessed', 'corrupted_chunks_aborted']
TECH['P19'] = 'ASan + UBSan over forged frames, mutated frames and broken streams, differential oracle with plain decompression, allocation ledger'


# ---------------------------------------------------------------------------------------------- P20
HARNESS['h_cvref'] = dict()
TABLE['P20'] = [U('h_cvref', 'native', 6000, 200000), U('h_cvref', 'asan', 1600, 40000, args=dict(salt='120'))]
RULE['P20'] = 'each evaluation is one random history in which 1..60 references, const references and dereferenced iterators are held (and their address and value checked after every operation) while other chunks are read, modified, appended, serialized, shrunk; distinct = distinct histories'
EXPECT['P20'] = ['held_checks', 'held_0', 'held_1', 'held_2', 'held_3', 'writes', 'iterators_moved', 'exchanges', 'shrinks', 'serializations', 'crowds'] + ['config_%d' % i for i in range(7)]
TECH['P20'] = 'ASan and address/value monitors of held references over random histories, lost-write oracle after release'


# ---------------------------------------------------------------------------------------------- P23
HARNESS['h_cvmem'] = dict(probes=['ratio'])
TABLE['P23'] = [U('h_cvmem', 'native', 3000, 100000)]
RULE['P23'] = 'each evaluation is one vector of 20..420 chunks filled, read, modified, appended to, truncated in several orders, with the number of decompressed chunks and the bytes obtained from its allocator recorded all along; distinct = distinct (size, content, history)'
EXPECT['P23'] = ['peaks_checked', 'footprints_checked', 'shrinks_checked', 'fillings_checked', 'ratios_checked'] + ['config_%d' % i for i in range(7)]
TECH['P23'] = 'runtime monitoring: allocator ledger (peak of decompressed chunks, live bytes) against reported footprint and bounds'


# ---------------------------------------------------------------------------------------------- P24
HARNESS['h_cvalg'] = dict(probes=['const_reverse', 'element_assign'], src=['h_cvalg.cpp'] + ['cvalg_%d.cpp' % i for i in range(7)])
TABLE['P24'] = [U('h_cvalg', 'native', 3500, 200000), U('h_cvalg', 'asan', 700, 40000, args=dict(salt='124'))]
RULE['P24'] = 'each evaluation runs 2..7 standard algorithms on random ranges of one compressed vector and of a std::vector with the same content, comparing positions returned and whole contents; distinct = distinct histories'
EXPECT['P24'] = ['algorithms'] + ['alg_' + x for x in 'sort stable_sort reverse rotate unique remove_if partition stable_partition move move_backward move_out shuffle swap_ranges transform binary_search reads generate reverse_iterators copy copy_backward copy_out copy_other fill replace_if inplace_merge partial_sort nth_element heap transform2 merge next_permutation copies swap comparisons sort_natural remove'.split()] + ['config_%d' % i for i in range(7)]
TECH['P24'] = 'runtime monitoring: differential execution of the standard algorithms against std::vector, ASan, object and allocation ledgers'


# ---------------------------------------------------------------------------------------------- P27, P28, P29
HARNESS['h_res'] = dict(flags=['-fno-builtin'])
TABLE['P27'] = [U('h_res', 'native', 640, 16000)]
RULE['P27'] = 'each evaluation is one context: a random history of compressions and decompressions (of produced and altered frames), the peak of bytes obtained from the allocator recorded for every call, then its destruction; distinct = distinct histories of results'
EXPECT['P27'] = ['peaks_checked', 'inputs_larger_than_4_times_the_bound', 'footprints_checked', 'large_footprints', 'repetitions', 'ended_threads', 'altered_frames', 'decompressions', 'decompressions_refused']
TECH['P27'] = 'runtime monitoring: allocation ledger (interposed allocator) against bounds and the reported footprint'

TABLE['P28'] = [U('h_par', 'native', 1200, 40000, shards=4, weight=2), U('h_par', 'generic', 300, 8000, shards=4, weight=2, args=dict(salt='128'))]
RULE['P28'] = 'each evaluation is one compression or decompression during which the threads entering the interposed entry points of libzstd gather and are counted; non-trivial = several superblocks and several threads; distinct = distinct (superblocks, threads, level, direction, size)'
EXPECT['P28'] = ['compressions', 'decompressions', 'gatherings', 'max:simultaneous_superblocks']
TECH['P28'] = 'runtime monitoring: count of superblocks processed at the same time, by interposition of libzstd with a gathering point'

HARNESS['h_life'] = dict(src=['h_life.cpp', 'life_c.c'])
TABLE['P29'] = [U('h_life', 'native', 1200, 40000, libs=dict(lib=('stlib', 'native+shared'))), U('h_life', 'asan', 240, 6000, libs=dict(lib=('stlib', 'native+shared')), args=dict(salt='129'))]
RULE['P29'] = 'each evaluation is one child process using the library (statically linked, and loaded as a plugin) in a random choice of static and thread_local constructors and destructors, exit handlers, threads, C code, ended in one of three ways; distinct = distinct lives'
EXPECT['P29'] = ['stage_' + x for x in 'bmwtlehpcv'] + ['end_0', 'end_1', 'end_2', 'libraries_unloaded']
TECH['P29'] = 'runtime monitoring of whole child processes: stages reached, results, exit status, deadline, ASan + LSan'

# ---------------------------------------------------------------------------------------------- P30
HARNESS['h_bits'] = dict(nolib=True)
TABLE['P30'] = [U('h_bits', 'native', 1600, 60000), U('h_bits', 'generic', 800, 20000, args=dict(salt='130')), U('h_bits', 'asan', 400, 10000, args=dict(salt='230'))]
RULE['P30'] = 'each evaluation compares every function of bits.hpp with its arithmetic definition on 400 values (and, over the first 64 cases, on all 8 and 16 bits values), and uses 12 aligned blocks; distinct = distinct sets of values'
EXPECT['P30'] = ['values', 'values_of_16_bits', 'aligned_blocks']
TECH['P30'] = 'runtime monitoring: arithmetic oracle, exhaustive for 8 and 16 bits, in optimised, generic and ASan + UBSan builds'
