// P09: the compressed bytes depend on nothing but the input and the parameters.
#include "gen.hpp"
#include "guard.hpp"
#include "mutate.hpp"
#include <malloc.h>
#include <stenos/stenos.h>
using namespace vh;

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	// bytes must also be the same in every process of this run: sizes and hashes of a fixed list are compared with a forked image
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		gen::Case c = gen::make(r, 200000);
		if (i % 61 == 60) {
			c.bpp = r.range(3000, 65534);
			c.size = r.below(c.bpp * 260);
			c.level = (int)r.below(4);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
		}
		if (i % 3 == 2) { // a partial block of few rows, with planes of all types, possibly after full blocks
			c.bpp = r.chance(1, 6) ? r.range(1, 200) : r.range(1, 20);
			size_t blocks = r.chance(2, 3) ? 0 : r.range(1, 3);
			c.size = c.bpp * (256 * blocks + r.below(r.chance(1, 2) ? 256 : 80)) + r.below(c.bpp);
			c.level = (int)(r.chance(1, 8) ? r.below(10) : r.range(1, 3));
			c.data.resize(c.size);
			std::vector<int> type(c.bpp);
			bool mostly = r.chance(1, 2);
			for (size_t p = 0; p < c.bpp; ++p)
				type[p] = mostly && r.chance(2, 3) ? 0 : (int)r.below(5);
			uint8_t k = r.u8();
			for (size_t q = 0; q < c.size; ++q) {
				size_t e = q / c.bpp;
				switch (type[q % c.bpp]) {
					case 0: c.data[q] = k; break;
					case 1: c.data[q] = (uint8_t)e; break;
					case 2: c.data[q] = (uint8_t)(e / 16 * 3); break;
					case 3: c.data[q] = (uint8_t)(r.below(6)); break;
					default: c.data[q] = r.u8();
				}
			}
			count("partial_blocks");
		}
		size_t shift = r.chance(1, 4) ? r.below(5) : STENOS_NO_BLOCK_SHIFT;
		if (shift != STENOS_NO_BLOCK_SHIFT && ((c.bpp * 256) << shift) >= STENOS_MAX_BLOCK_BYTES)
			shift = STENOS_NO_BLOCK_SHIFT;
		size_t bound = stenos_bound(c.size);
		if (shift != STENOS_NO_BLOCK_SHIFT)
			bound = 12 + c.size + 4 * (c.size / ((c.bpp * 256) << shift) + 1);
		gen::Bytes first;
		unsigned runs = (unsigned)r.range(3, 6);
		stenos_context* kept = stenos_make_context();
		for (unsigned k = 0; k < runs; ++k) {
			uint8_t paint = (uint8_t)(k == 0 ? 0 : k == 1 ? 0xFF : r.u8());
			mallopt(M_PERTURB, k == 0 ? 0x55 : (int)r.u8());
			size_t a1 = k ? r.below(70) : 0, a2 = k ? r.below(70) : 0;
			size_t extra = k && r.chance(1, 2) ? r.below(200000) : 0;
			gen::Bytes s(c.size + 80), d(bound + extra + 80, paint);
			memcpy(s.data() + a1, c.data.data(), c.size);
			for (size_t q = 0; q < a1; ++q)
				s[q] = r.u8();
			for (size_t q = a1 + c.size; q < s.size(); ++q)
				s[q] = r.u8();
			stenos_context* x = kept;
			bool fresh = r.chance(1, 2);
			if (fresh)
				x = stenos_make_context();
			else if (r.chance(1, 2)) { // leave other content in the buffers of the context
				gen::Bytes z(c.size), zd(bound);
				gen::fill(r, z.data(), z.size(), c.bpp, (int)r.below(gen::KINDS));
				stenos_set_level(x, (int)r.below(7));
				stenos_set_block_size(x, shift);
				stenos_compress_generic(x, z.data(), c.bpp, z.size(), zd.data(), bound);
			}
			if (k && r.chance(1, 2)) { // leave other content in the buffers of the thread and on the stack
				size_t zs = c.bpp * r.range(1, 600);
				if (zs > 300000)
					zs = c.bpp * r.range(1, 300);
				gen::Bytes z(zs), zd(stenos_bound(zs));
				gen::fill(r, z.data(), z.size(), c.bpp, (int)r.below(gen::KINDS));
				stenos_compress(z.data(), c.bpp, zs, zd.data(), zd.size(), (int)r.range(1, 3));
			}
			stenos_set_level(x, c.level);
			stenos_set_block_size(x, shift);
			stenos_set_threads(x, k && r.chance(1, 6) ? 3 : 1);
			note(c.str() + fmt(" shift=%zd run=%u align=%zu,%zu extra=%zu fresh=%d", (ssize_t)shift, k, a1, a2, extra, (int)fresh));
			size_t rr;
			paint_stack(paint);
			if (shift == STENOS_NO_BLOCK_SHIFT && r.chance(1, 3))
				rr = stenos_compress(s.data() + a1, c.bpp, c.size, d.data() + a2, bound + extra, c.level);
			else
				rr = stenos_compress_generic(x, s.data() + a1, c.bpp, c.size, d.data() + a2, bound + extra);
			if (fresh)
				stenos_destroy_context(x);
			if (stenos_has_error(rr)) {
				violation("det:error", c.str() + fmt(" run %u: %zd", k, (ssize_t)rr));
				break;
			}
			if (k == 0)
				first.assign(d.data() + a2, d.data() + a2 + rr);
			else if (rr != first.size() || memcmp(first.data(), d.data() + a2, rr)) {
				size_t q = 0;
				while (q < rr && q < first.size() && first[q] == d[a2 + q])
					++q;
				violation("det:bytes", c.str() + fmt(" shift=%zd run %u (paint %02x, align %zu,%zu, extra %zu): %zu bytes, first run %zu, first difference at %zu", (ssize_t)shift, k, paint, a1, a2, extra, rr, first.size(), q));
			}
			count("compressions");
			evaluated(hcomb(hcomb(fnv(first.data(), first.size()), c.level), hcomb(k, paint)), k > 0);
		}
		stenos_destroy_context(kept);
		if (i < 4)
			sample(c.str() + fmt(" shift=%zd, %u runs, %zu bytes", (ssize_t)shift, runs, first.size()));
	});
}
