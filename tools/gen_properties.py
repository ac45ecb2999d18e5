#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
Z='stenos/internal/zstd_wrapper.h'; S='stenos/internal/stenos.cpp'; B='stenos/internal/block_compress.h'; L='stenos/internal/lz_compress.h'; T='stenos/internal/tiny_pool.h'; C='stenos/cvector.hpp'; D='stenos/internal/delta.cpp'; H='stenos/stenos.h'
SH=['stenos/internal/shuffle.cpp','stenos/internal/shuffle-avx2.cpp','stenos/internal/shuffle-sse2.cpp','stenos/internal/shuffle-generic.h']
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook)))

p('P01','Compression followed by decompression is the identity',
 'For every input buffer, element size from 1 to 65534, level 0 to 9, thread count and (when not using the default) custom block size, compressing into a buffer of stenos_bound() bytes succeeds and decompressing the result returns the original size and exactly the original bytes. Compression never modifies its input, and the result is the same whatever the alignment of the buffers.',
 ['inputs','configurations'],'all byte strings x element sizes x levels x thread counts x superblock shifts x instruction sets',
 'The comp_decomp tests run a handful of generated shapes for 8 element sizes at block-multiple lengths; they never cover odd element sizes, partial blocks, sizes at superblock multiples, per-row coding choices or non-native instruction sets.',
 [S,B,L,D]+SH,[('superblock method selection','compress_generic_superblock in '+S),('block coder','block_compress_generic/block_decompress_generic in '+B),('LZ coder',L),('transpose + byte delta','shuffle*.cpp, delta.cpp')],
 obs=['stenos_compress_generic','stenos_decompress_generic','stenos_compress','stenos_decompress'])
p('P02','The advertised bound suffices and the output buffer is never overrun',
 'stenos_bound(n), and its constexpr C++ twin compress_bound(n), are always enough to compress n bytes with the default block size, whatever the data, element size, level and threads. With any smaller output buffer a call either succeeds within it or returns a documented error code, and in no case is a byte outside the output buffer written or a byte outside the input buffer read.',
 ['inputs','configurations'],'all inputs x element sizes x levels x threads x destination sizes 0..bound+k',
 'Tests always give the bound or more and look only at the round trip; nothing looks past the end of the destination, nor at short destinations.',
 [S,B,L,H],[('bound formula','stenos_bound in '+S+', compress_bound in '+H),('destination checks','compress_generic_superblock, compress_memcpy, block_compress_generic')],
 obs=['return value vs canary/guard pages around dst','compress_bound == stenos_bound'])
p('P03','Valid use never has undefined behaviour, leaks or reads of uninitialised data',
 'Any sequence of valid API calls (compress, decompress, frame information, context creation, configuration, reuse and destruction) on buffers of exactly the stated sizes causes no out-of-bounds access, use after free, memory leak, read of uninitialised memory or other undefined behaviour.',
 ['inputs','configurations','histories'],'all inputs x element sizes x levels x threads x context histories, in exactly sized heap blocks',
 'The tests are built without sanitizers, over-allocate their buffers and only look at the round trip, so a stray read or write of a few bytes is invisible.',
 [S,B,L,D,T]+SH,[('block coder load/store widths',B),('scratch buffers',"CBuffer in "+S),('vector loops with scalar tails','shuffle*.cpp, delta.cpp, lz_compress.h')],
 obs=['AddressSanitizer, UBSan, LeakSanitizer, guard pages, valgrind memcheck'])
p('P04','Decompressing hostile bytes is memory safe and terminates',
 'Decompressing (or reading the information of) any byte string, including mutated, spliced and forged frames, with any valid element size, thread count and destination size, terminates, touches only the given input and output buffers, and returns either an error code or exactly the size announced by the header.',
 ['inputs','configurations'],'all byte strings x element sizes x thread counts x destination sizes x instruction sets',
 'No test decompresses anything but intact frames.',
 [S,B,L,D],[('bounds checks in block decoding','block_decompress_generic/decode_* in '+B),('LZ offset checks',L),('superblock header checks','stenos_decompress_generic in '+S)],
 obs=['sanitizer reports, guard pages, return value'])
p('P05','A truncated frame or short destination is always reported as an error',
 'Decompressing any strict prefix of a non-empty frame, or decompressing a frame into a destination smaller than its decompressed size, returns an error code. Whenever decompression reports success, every byte of the announced size was produced from the frame alone: the outcome and output never depend on the previous content of the destination, of memory, or on bytes after the given input.',
 ['inputs','configurations'],'all frames x all cut points x thread counts; all mutated frames that decode',
 'No test truncates a frame or reuses a dirty destination.',
 [S,B],[('source overflow checks','stenos_decompress_generic, decompress_generic_superblock in '+S),('full decode check',"superblocks must decode to their full size, "+S)],
 obs=['stenos_decompress_generic return value and output under two different pre-fills'])
p('P06','The number of threads never changes the result',
 'Without a time limit, compressing the same input with any number of threads yields exactly the bytes of the single-threaded compression, and decompressing any byte string with any number of threads succeeds or fails, and produces the same output on success, exactly as single-threaded decompression does.',
 ['schedules','inputs','configurations'],'thread counts 1..64 x all inputs spanning one to many superblocks x worker schedules',
 'Tests compress with one or few threads, compare round trips only, and sample one schedule.',
 [S,T],[('ordered assembly of superblocks','stenos_compress_generic multi-thread branch in '+S),('per-superblock decompression tasks','stenos_decompress_generic in '+S),('worker pool',T)],
 obs=['compressed bytes per thread count'])
p('P07','Distinct contexts can be used concurrently from any number of threads',
 'Threads using distinct contexts (or the context-free functions) at the same time never race, deadlock, lose a wake-up or influence each other: every call completes and returns what it returns when run alone, however many threads each call asks for.',
 ['schedules','histories'],'up to dozens of caller threads x thread counts x workloads sharing the process-wide worker pool x injected delays',
 'No test calls the library from two threads.',
 [S,T],[('shared worker pool',T),('wake-ups between worker and waiting contexts',T+', stenos_compress_generic')],
 state=[('task queue','pending superblock jobs',T),('waiters','contexts blocked until their tasks end',S)],
 obs=['ThreadSanitizer, per-call results, watchdog on progress'])
p('P08','A reused or reset context behaves like a new one',
 'Whatever sequence of operations a context went through before (successes, failures, other levels, element sizes, threads, time limits, block sizes), an operation performed after setting its parameters yields the same result as on a new context with these parameters, and a reset context behaves exactly like a new one.',
 ['histories','configurations'],'all operation histories on one context',
 'Tests use a fresh context, or reuse one with a single configuration.',
 [S],[('context scratch buffers and dictionaries','stenos_context_s in '+S),('reset','stenos_reset_context, stenos_context_s::reset')],
 state=[('time/level state','current level and copy mode of time limited runs','stenos_context_s')],
 obs=['compressed bytes / return codes against a fresh context'])
p('P09','Compression is a function of its input and parameters alone',
 'Without a time limit, compressing the same bytes with the same parameters always yields the same compressed bytes: they do not depend on stack or heap garbage, buffer addresses or alignment, prior content or (sufficient) size of the destination, earlier calls, or the run.',
 ['inputs','histories','configurations'],'all inputs x parameters x memory states x alignments',
 'Tests compare only round trips, never two compressions of the same data.',
 [S,B,L],[('hash tables and scratch initialised before use',L+', '+B)],
 obs=['compressed bytes across painted stacks, filled heaps, alignments'])
p('P10','Time-limited compression stays correct and honours its deadline',
 'With any time limit, whatever the clock does, compression still succeeds within the advertised bound and its output decompresses to the original bytes. Once the limit is exceeded, all remaining data is stored uncompressed, whatever the level and thread count; with no limit or one that is never approached, the result is correct and really compressed.',
 ['inputs','configurations','fault_sequences'],'all inputs x levels x threads x limits x clock behaviours (slow, fast, jumps)',
 'The tests never set a time limit, and real time cannot be driven by a test.',
 [S,'stenos/timer.hpp'],[('level adaptation','stenos_context_s::t_ speed/level update in '+S),('switch to plain copies','compress_generic_superblock in '+S)],
 state=[('elapsed/limit','virtual time against the limit',S)],
 obs=['superblock codes of the frame against the virtual clock'])
p('P11','Frames are portable across instruction sets',
 'Frames compressed by a build for any instruction-set level (scalar, SSE4.1, AVX2/BMI) or executed with any of them disabled are decompressed to the same bytes by every other build.',
 ['configurations','inputs'],'producer build x consumer build x inputs x element sizes x levels',
 'The suite is built once with -march=native, so only one build ever reads and writes frames.',
 [S,B,D,'stenos/internal/simd.cpp']+SH,[('compile-time and run-time dispatch','simd.cpp/simd.h, #ifdef paths in block_compress.h, shuffle.cpp')],
 obs=['cross decoding matrix'])
p('P12','Frame information is exact and matches what decompression does',
 'For every produced frame, stenos_get_info() on its first 12 bytes (or the whole of a shorter frame) returns the exact original size and the superblock size in use, with a header length of at most 12 bytes. For any other byte string it either returns an error or information that decompression agrees with: an announced size other than the one given by a successful decompression never occurs.',
 ['inputs','configurations'],'all frames, all byte strings x element sizes x prefix lengths',
 'No test calls stenos_get_info.',
 [S],[('frame header','stenos_get_info, stenos_private_create_compression_header in '+S)],
 obs=['stenos_get_info results against the known input and decompression result'])
p('P13','Allocation failures in the codec are clean',
 'If any memory allocation fails during a compression, decompression or context creation, the call returns an error code (or NULL) or still succeeds with a correct result; it never crashes, terminates the process, hangs, leaks, or corrupts memory. Afterwards the same context works again and gives the same results as a new one.',
 ['fault_sequences','inputs','configurations'],'every allocation site/ordinal reached x workloads x thread counts',
 'Nothing injects allocation failures.',
 [S,T,B],[('allocation checks','CBuffer::make callers in '+S+', tiny_pool push')],
 obs=['interposed malloc/operator new'])
p('P14','The compressed vector behaves like std::vector',
 'Any sequence of compressed-vector operations (construction, copy, move, swap, element access, front/back, push/emplace_back, pop_back, insert, emplace, erase, resize, assign, clear, shrink_to_fit, for_each, iteration in both directions, comparisons of elements and iterators) leaves the same content and returns the same results as the same operations on std::vector.',
 ['histories','configurations'],'all operation histories x element types and sizes x block sizes x levels',
 'test_cvector follows one fixed script with few element types and one block size.',
 [C],[('chunk lookup, compression and decompression on access','cvector_internal in '+C),('dirty tracking','RawBuffer dirty flag')],
 state=[('decompressed chunks','LRU-like lists of raw buffers',C)],
 obs=['full content comparison with std::vector after every step'])
p('P15','Every element and every allocation of the compressed vector is released once',
 'Over the life of compressed vectors, every constructed element is destroyed exactly once, moved or copied elements are never used after destruction, and every byte obtained from the allocator is given back with the right size: nothing is leaked and nothing is freed twice once the vectors are destroyed.',
 ['histories'],'all operation histories including copies, moves, swaps, exceptions, with relocatable element types owning resources',
 'Tests never count constructions, destructions or allocations.',
 [C],[('element relocation between raw and compressed form',C),('allocator-aware containers','construct/destroy/allocate wrappers')],
 obs=['instrumented element type and allocator'])
p('P16','Exceptions leave the compressed vector consistent',
 'If an element constructor, assignment or the allocator throws during a compressed-vector operation, the exception reaches the caller, nothing is leaked or destroyed twice, the vector remains usable with a consistent size, and elements the operation did not have to touch keep their values; when push_back, emplace_back, element access or shrink_to_fit throws the content is unchanged.',
 ['fault_sequences','histories'],'every throwing point (allocation or element operation) of every operation in all histories',
 'No test throws.',
 [C],[('rollback on exceptions',C)],
 obs=['content comparison after each injected fault'])
p('P17','Concurrent use of one compressed vector is safe as documented',
 'Any number of threads may read one compressed vector at once (element access, iterators, const for_each), and any number may read and modify it at once through the for_each family: there is no data race, deadlock or torn element, every functor call is applied exactly once and no modification is lost.',
 ['schedules','histories'],'thread counts x access mixes x block sizes x number of decompressed chunks x injected delays',
 'The existing test runs no two threads on a vector.',
 [C],[('per-block spin locks and pins','for_each/const_for_each, RefWrapper, locks in '+C)],
 obs=['ThreadSanitizer, conservation of per-element counters'])
p('P18','Serialization round trips and interoperates with the plain codec',
 'Serializing any compressed vector (to memory or to any stream-like object) and deserializing it, into a vector of the same element type whatever its level, gives equal content and leaves the source unchanged. The serialized bytes are a valid frame that plain decompression decodes to the contiguous array of elements, and a frame compressed with the matching custom block size deserializes to the elements it holds.',
 ['histories','inputs','configurations'],'all vector states (compressed, dirty, partial last block, empty) x block sizes x levels x stream kinds',
 'Tests serialize one or two freshly filled vectors.',
 [C,S],[('serialize/deserialize',C),('block interop entry points','stenos_private_* in '+S)],
 obs=['deserialized vectors and stenos_decompress output'])
p('P19','Deserializing hostile bytes is safe and fails cleanly',
 'Deserializing any byte string or broken stream into a compressed vector terminates without out-of-bounds access or leak; it either succeeds, or reports failure and leaves the vector empty and usable.',
 ['inputs','fault_sequences'],'all byte strings, truncations, mutations and failing streams x element types x block sizes',
 'No test deserializes damaged data.',
 [C,S],[('deserialize validation',C)],
 obs=['return code, vector size and later use'])
p('P20','Held element references stay valid and correct',
 'While a caller holds element references (including those behind dereferenced iterators), any other element access, insertion at the end, serialization or shrink_to_fit leaves the referenced elements in place: their addresses and values stay valid and writes made through them are never lost, however many chunks are accessed meanwhile.',
 ['histories'],'all histories of held references x accesses x eviction pressure',
 'Tests never hold a reference across the eviction of many chunks.',
 [C],[('reference counting of raw buffers','RefWrapper/ref_count in '+C)],
 obs=['addresses, values under ASan'])
p('P21','The timer measures elapsed monotonic time',
 'For any readings of the system monotonic clock, the elapsed time returned after a tick is exactly the number of nanoseconds between the two readings, and successive elapsed times never decrease; each timer is independent of the others.',
 ['inputs','histories'],'all pairs of clock readings, in particular around second boundaries',
 'No test can drive the clock; nothing tests the timer.',
 ['stenos/timer.hpp',S],[('difference of timespecs','timer::diff in stenos/timer.hpp'),('C API','stenos_make_timer, stenos_tick, stenos_tock in '+S)],
 obs=['stenos_tock against an interposed clock'])
p('P22','Parameters are validated consistently',
 'Levels are clamped to 0..9 and thread counts to at least 1, invalid block sizes and invalid element sizes are refused by an error code of the documented range without side effects, whatever the level, size or threads. No valid result is ever mistaken for an error or the reverse, and an empty input is a valid one.',
 ['inputs','configurations'],'all parameter values including extremes, x null and empty buffers',
 'Tests use valid parameters only.',
 [S,H],[('setters and entry checks','stenos_set_*, stenos_compress_generic, stenos_decompress_generic, stenos_get_info in '+S)],
 obs=['return codes and subsequent behaviour'])
p('P23','The compressed vector really keeps its data compressed',
 'While a compressed vector is read, modified or filled in any order, the number of chunks kept decompressed at the same time (when none is pinned by a reference) stays bounded by a small fraction of the chunks, the reported memory footprint and ratios follow the memory actually allocated, and after shrink_to_fit a compressible content occupies a small fraction of its plain size with all elements preserved.',
 ['histories'],'all access orders x sizes x block sizes',
 'Tests check values only, so a vector that keeps everything decompressed passes.',
 [C],[('recycling of decompressed chunks','find_free_context/make_raw_buffer in '+C),('footprint accounting','memory_footprint, current_compression_ratio')],
 obs=['allocator statistics and memory_footprint()'])
p('P24','Standard algorithms work on the compressed vector',
 'Standard algorithms (sort, stable_sort, reverse, rotate, unique, remove_if, partition, copy, move, transform, binary searches, shuffles) applied through the iterators of a compressed vector give the same result as on std::vector, including for move-only elements owning resources.',
 ['inputs','histories','configurations'],'all contents x algorithms x iterator ranges x block sizes',
 'Tests run std::sort and a few others once, on trivially copyable elements.',
 [C],[('proxy references and swap','RefWrapper, iter_swap, move in '+C)],
 obs=['content compared with std::vector'])
p('P25','The compressed format is stable',
 'Frames written by the pinned version (all coding methods, element sizes and levels) are decompressed to their original bytes by the current code, and every frame the current code writes follows the documented layout, so that an independent decoder of this layout recovers the original bytes.',
 ['inputs','configurations'],'all frames of the pinned version; all frames written now',
 'A change made symmetrically in the encoder and the decoder passes every round-trip test and silently loses all existing archives.',
 [S,B,L,D],[('frame and superblock layout','stenos_compress_generic, compress_generic_superblock'),('block layout',B)],
 obs=['golden frames; independent reference decoder'])
p('P26','Compression is effective',
 'Compressible data is really compressed: for representative structured inputs, each level produces frames not significantly larger than the pinned version does, constant data shrinks by orders of magnitude, incompressible data costs no more than the bound, and level 0 stores its input (so does level 1 where SSE4.1 is unavailable).',
 ['inputs','configurations'],'structured and constant inputs x element sizes x levels 0..9 x thread counts',
 'Round-trip tests pass just as well if the codec stores everything.',
 [S,B,L],[('method selection','compress_generic_superblock, guess_transposed_lz_ratio in '+S),('row method choice',B)],
 obs=['compressed sizes against recorded ones'])

p('P27','Memory use is bounded, reported and given back',
 'The working memory of a call never exceeds a few superblocks per thread it really uses plus a constant, whatever the size of the input and the bytes of the frame. stenos_memory_footprint() follows the memory a context really holds, repeating calls never makes the library hold more, and destroying contexts and ending threads gives back what they held.',
 ['inputs','configurations','histories'],'inputs of any size x element sizes x threads x block sizes x produced and altered frames, context histories',
 'Tests never look at memory; leaks and excess only show in what the allocator sees over long histories.',
 [S,T,Z,B],[('context buffers','stenos_context_s::prepare, clear_buffers, ensure_has_buffers, stenos_memory_footprint in '+S),('thread level contexts','zstd_compress_with_context in '+Z+', CompressionBuffer in '+B)],
 obs=['bytes obtained from and returned to the allocator','reported footprint'])
p('P28','The requested threads are really used, and no more',
 'A call given n threads processes up to n superblocks at the same time when there are that many (as far as the pool has threads), never more than n, and a call given one thread does its work in the calling thread: this holds for compression and decompression alike.',
 ['inputs','configurations','schedules'],'numbers of superblocks x thread counts x levels, compression and decompression',
 'Results are the same whatever the parallelism, so no result-checking test sees it lost or exceeded.',
 [S,T],[('dispatch','stenos_compress_generic, stenos_decompress_generic in '+S),('pool','tiny_pool in '+T)],
 obs=['number of threads inside the entropy coder at the same time'])
p('P29','Usable during the whole life of a process',
 'Compression, decompression and compressed vectors work in constructors and destructors of static and thread_local objects, in exit handlers, from C and from a dynamically loaded library that is then unloaded, whatever was used before: results are correct, nothing crashes, and the process (or the thread) always ends normally.',
 ['histories','schedules'],'lives of a process: stages at which the library is used x kinds of use x ways to end',
 'Tests run the library between the start and the end of main only.',
 [S,Z,B,C,T],[('global state','GlobalPool in '+S+', host_implementation in stenos/internal/shuffle.cpp'),('thread level state','zstd_compress_with_context in '+Z+', CompressionBuffer in '+B)],
 obs=['stages reached, results, exit status of whole processes'])
p('P30','The bit and byte utilities compute what they are defined to',
 'Every function of the public header bits.hpp (bit counts, bit scans, byte swaps, 128 bits product, reads and writes in a given byte order, aligned allocation) gives the result its definition requires for every argument, at any alignment, touching exactly the bytes announced, whatever instructions it is compiled for.',
 ['inputs'],'all 8 and 16 bits values, 32 and 64 bits values around every bit position, all alignments x builds',
 'They are never tested on their own; the codec only exercises some of them, with a few values.',
 ['stenos/bits.hpp'],[('bit and byte functions','popcnt*, bit_scan_*, byte_swap_*, read_*, write_*, umul128, aligned_malloc in stenos/bits.hpp')],
 obs=['values returned','bytes written'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
