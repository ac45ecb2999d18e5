// P02: stenos_bound() suffices; nothing is touched outside src and dst; short destinations give a clean answer.
#include "gen.hpp"
#include "guard.hpp"
#include <stenos/stenos.h>
using namespace vh;
static Guard gs, gd, go;

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		// bound arithmetic
		for (int k = 0; k < 200; ++k) {
			size_t n = (size_t)(r.u64() >> r.range(8, 63));
			if (r.chance(1, 3))
				n = 65792 * r.below(1000000) + r.below(3) - 1;
			if ((int64_t)n < 0)
				n = 0;
			size_t b = stenos_bound(n);
			if (b != stenos::compress_bound(n))
				violation("bound:twin", fmt("stenos_bound(%zu)=%zu compress_bound=%zu", n, b, stenos::compress_bound(n)));
			// what incompressible data costs with the smallest superblocks (element size 257)
			if (b < n + 8 + 4 * ((n + 65791) / 65792))
				violation("bound:formula", fmt("stenos_bound(%zu)=%zu: too small for incompressible elements of 257 bytes", n, b));
			if (b < n || stenos_has_error(b))
				violation("bound:value", fmt("stenos_bound(%zu)=%zu", n, b));
		}
		static_assert(stenos::compress_bound(1000) >= 1000, "constexpr");
		gen::Case c = gen::make(r, 300000);
		int threads = r.chance(1, 3) ? (int)r.range(2, 9) : 1;
		if (r.chance(1, 3)) { // worst cases: incompressible data, the smallest superblocks, many of them
			static const size_t wb[] = { 257, 257, 258, 129, 511, 513, 171, 1, 8, 300, 320 };
			c.bpp = wb[r.below(11)];
			size_t sb = gen::base_superblock(c.bpp);
			c.size = sb * r.range(1, 6) + (r.chance(1, 2) ? 0 : r.range(1, 200));
			c.kind = r.chance(1, 2) ? 0 : 13;
			c.level = (int)r.below(4);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
			count("worst_case_inputs");
		}
		const size_t bound = stenos_bound(c.size);
		stenos_context* ctx = stenos_make_context();
		stenos_set_level(ctx, c.level);
		stenos_set_threads(ctx, threads);
		size_t full = 0;
		unsigned tries = 1 + (unsigned)r.range(3, 8);
		uint64_t sig = hcomb(c.bpp, c.size);
		for (unsigned t = 0; t < tries; ++t) {
			size_t n = bound;
			if (t) {
				switch (r.below(9)) {
					case 0: n = r.below(bound); break;
					case 1: n = full ? full - 1 : 0; break;
					case 2: n = full; break;
					case 3: n = full + r.below(20); break;
					case 4: n = r.below(30); break;
					case 5: n = full > 40 ? full - r.below(40) : r.below(12); break;
					case 6: n = full ? r.below(full) : 0; break;
					case 7: n = bound - 1 - r.below(bound < 40 ? bound : 40); break;
					default: n = c.size > 8 ? c.size - 8 + r.below(30) : r.below(40); break;
				}
				if (n > bound)
					n = bound;
			}
			bool hi = r.chance(2, 3);
			uint8_t* s = r.chance(2, 3) ? gs.high(c.size) : gs.low(c.size);
			if (c.size)
				memcpy(s, c.data.data(), c.size);
			uint8_t* d = hi ? gd.high(n) : gd.low(n);
			uint8_t* can = hi ? (d - gd.begin() > 4096 ? d - 4096 : gd.begin()) : d + n;
			size_t canlen = hi ? (size_t)(d - can) : (gd.capacity() - n < 4096 ? gd.capacity() - n : 4096);
			memset(can, 0xC7, canlen);
			note(c.str() + fmt(" threads=%d dst_size=%zu/%zu hi=%d", threads, n, bound, (int)hi));
			size_t rr = stenos_compress_generic(ctx, s, c.bpp, c.size, d, n);
			for (size_t k = 0; k < canlen; ++k)
				if (can[k] != 0xC7) {
					violation("bound:write-outside", c.str() + fmt(" threads=%d dst_size=%zu: byte %s dst modified", threads, n, hi ? "before" : "after"));
					break;
				}
			if (c.size && memcmp(s, c.data.data(), c.size))
				violation("bound:src-modified", c.str());
			if (stenos_has_error(rr)) {
				if (t == 0)
					violation("bound:insufficient", c.str() + fmt(" threads=%d: %zd with the advertised bound", threads, (ssize_t)rr));
				else if (!documented_error(rr))
					violation("bound:code", c.str() + fmt(" dst_size=%zu: code %zd", n, (ssize_t)rr));
				count("short_dst_errors");
			}
			else {
				if (rr > n)
					violation("bound:overrun", c.str() + fmt(" threads=%d dst_size=%zu: returned %zu", threads, n, rr));
				else {
					if (t == 0)
						full = rr;
					uint8_t* f = gs.high(rr);
					memcpy(f, d, rr);
					uint8_t* o = go.high(c.size);
					stenos_set_threads(ctx, r.chance(1, 2) ? 1 : 4);
					size_t ds = stenos_decompress_generic(ctx, f, c.bpp, rr, o, c.size);
					stenos_set_threads(ctx, threads);
					if (ds != c.size || (c.size && memcmp(o, c.data.data(), c.size)))
						violation("bound:content", c.str() + fmt(" threads=%d dst_size=%zu: frame of %zu bytes does not decode (%zd)", threads, n, rr, (ssize_t)ds));
				}
				count(t ? "short_dst_successes" : "full_dst_successes");
			}
			sig = hcomb(sig, rr);
			evaluated(hcomb(sig, n), c.size > 0);
		}
		if (i < 4)
			sample(c.str() + fmt(" threads=%d bound=%zu compressed=%zu tries=%u", threads, bound, full, tries));
		stenos_destroy_context(ctx);
	});
}
