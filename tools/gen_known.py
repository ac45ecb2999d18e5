#!/usr/bin/env python3
"""Writes known_findings.txt: one 'fixed:' line per repaired defect (suppresses nothing), one 'finding:' line per recorded one."""
import os
F = '''P01 ca5b9a2 frames whose size is an exact multiple of the superblock size were rejected by the multithreaded decoder (e.g. 2*131072 bytes, threads 2)
P01 936d466 frames compressed with a custom superblock size (or a time limit) did not carry the superblock size the decoder expects
P08 94adc18 stenos_reset_context() kept the custom block size: a reset context produced other bytes than a new one
P08 82d1622 after a time limited compression that ended in plain copies, the context kept copying without compressing
P07 d1c2959 the pool woke up only one waiting context: two contexts waiting at once could sleep for ever
P07 8c291e2 data race on the pool's stop flag; division by zero with an empty pool
P07 ff74d19 use after free and ABA in the lock-free list of task buffers under concurrent contexts
P13 9e9ecd8 an allocation failure while pushing tasks returned while other tasks still used the caller's stack
P06 718550d data race on the error code of the parallel level 0 copy
P10 bdd1ee8 requested_speed() subtracted past zero once the deadline was exceeded, giving an almost infinite remaining time
P02 c97d289 heap overflow while compressing a partial block of rows (destination overrun)
P09 4c0bc0d the LZ stage read its hash table before initialising it: bytes depended on stack contents
P04 e9bb907 read past the input on a corrupted block of type "copy"
P04 2444133 one byte read past the input while decoding the last RLE row
P04 ef20f21 the scalar decoder lacked bounds checks that the SIMD one has (writes/reads outside the buffers on corrupted blocks)
P04 be09218 LZ offsets pointing before the output were followed
P05 c95f125 superblocks decoding to fewer bytes than announced were accepted, leaving destination bytes unwritten
P04 d82760d a superblock size of 0 or one that is no multiple of the block in a frame header caused a division by zero / overruns
P04 60cd943 byte delta inverse of less than 32 bytes accessed memory outside the buffers
P22 c1a3f9d stenos_get_info() divided by zero with bytesoftype 0
P22 a5c4a1e big bytesoftype were accepted at some levels and rejected at others
P10 adcfc95 thread count * 32 overflowed with a time limit (division by zero with threads = 2^27)
P13 55cd5f0 allocation failures in contexts and buffers crashed or leaked instead of reporting STENOS_ERROR_ALLOC
P13 8c3887b after one failed creation of a thread's zstd context, that thread stored its superblocks uncompressed for ever
P15 cec21d4 cvector never destroyed its compression context (leak)
P16 0e8bd7c cvector copy assignment to a default constructed vector crashed; and it lost the previous content when an exception was thrown
P15 2126f1e cvector constructors leaked what was built when an element constructor threw
P18 b978536 serialization of a vector whose last chunk is full wrote a wrong frame
P19 ad89c4b after a failed deserialization the vector was left in an invalid state (crash when used or destroyed)
P18 2fccba6 deserialization from a stream of a frame without explicit superblock size consumed 4 bytes too many
P17 d395dfe modifications made by for_each() were lost when it stopped early or threw
P15 5736264 resize() leaked elements when a constructor threw
P16 6a82647 a failed allocation of a compressed buffer lost a whole chunk and kept its lock
P16 81d7279 a failed push_back/emplace_back kept a dirty chunk without block
P16 b10d0bd shrink_to_fit() corrupted the list of decompressed chunks when an allocation failed
P20 daa40e8 chunks still used by a reference wrapper could be recompressed and stolen: held references dangled
P17 a8d572a data race on the list of decompressed chunks with concurrent readers
P14 73658d4 cvector::compression_ratio() did not compile
P18 5354f6b stenos::istreambuf_iterator lost elements when moved or incremented
P24 933aff0 assignment between element references (RefWrapper copy assignment implicitly deleted): std::copy within compressed vectors and *it1 = *it2 did not compile
P14 964a764 reverse iterators of cvector returned dangling references (crash), const ones did not compile
P14 81cfc63 for_each() family gave copies of the elements to functors returning bool: modifications were lost (auto&& functors) or did not compile (T& functors)
P16 242905c assign(count, value) and insert(pos, count, value) terminated the program when the copy of the value throws
P06 5a05164 the compressed bytes depended on the thread count and on the room in the destination (e.g. bytesoftype 384, level 1, threads 4 against 1)
P10 238cc48 with superblocks of a single block (bytesoftype >= 512) the clock was never checked: data went on being compressed after the time limit
P19 0ec50dd cvector::deserialize() from a stream that throws (exceptions mask) leaked the buffer of the current chunk
P24 15af534 std::swap(a, b) on two element references lost one of the elements
P24 cabf1a0 assignment (std::copy, std::move, swap) between elements of two compressed vectors looked up the chunk of one in the other: out-of-bounds access
P11 c0619f1 builds for CPUs without AVX2 corrupted every 16th element of 12 bytes, and wrote 4 bytes past the destination
P29 442256b static and thread_local destructors that compress used the thread-level zstd context and block buffer after they were freed
P29 64d7bc0 with the static library, compressing in a static constructor called a null function or used a null pool, and a multithreaded call in a static destructor could wait for ever
P03 218cbfb rows of the input were accessed through references to a 16-byte aligned type whatever the alignment of the buffer (undefined behaviour, ubsan alignment)
P10 ba7fa87 with a clock that does not advance during a superblock, an infinite or NaN rate was converted to size_t (undefined behaviour, ubsan float-cast-overflow)
'''
o = ['# fixed: lines record repaired defects and suppress nothing.  finding: lines are defects that remain (format: finding: property=<id> key=<violation key> <what fails>).']
for l in F.splitlines():
    p, c, d = l.split(' ', 2)
    o.append('fixed: property=%s %s %s' % (p, c, d))
o.append('finding: property=P14 key=model:prvalue-ref-assign-moves v[i] = v[j] (both sides temporary references) of a cvector of a type that is not trivially movable moves out of v[j], where std::vector copies it')
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt'), 'w').write('\n'.join(o) + '\n')
