// P06: same compressed bytes and same decompression outcome for any number of threads.
#include "perturb.hpp"
#include "gen.hpp"
#include "mutate.hpp"
#include <stenos/stenos.h>
using namespace vh;

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		static const unsigned pl[] = { 0, 0, 50, 8, 3 };
		perturb::level = pl[r.below(5)];
		gen::Case c;
		size_t shift = STENOS_NO_BLOCK_SHIFT;
		c.level = (int)r.below(10);
		c.kind = (int)r.below(gen::KINDS);
		c.bpp = gen::pick_bpp(r);
		size_t sb;
		if (r.chance(1, 2)) { // many small superblocks
			if (c.bpp > 64)
				c.bpp = 1 + r.below(64);
			shift = r.below(3);
			sb = (c.bpp * 256) << shift;
			size_t maxn = 200000 / sb + 2;
			c.size = sb * r.range(1, maxn < 60 ? maxn : 60);
		}
		else {
			sb = gen::base_superblock(c.bpp);
			if (c.level > 5 && r.chance(3, 4))
				c.level -= 5;
			c.size = sb * r.range(1, 6);
		}
		switch (r.below(4)) {
			case 0: break;
			case 1: c.size += r.below(sb); break;
			case 2: c.size += r.below(300); break;
			default: c.size -= r.below(sb < 400 ? sb : 400); break;
		}
		c.data.resize(c.size);
		if (r.chance(1, 3)) // different content per superblock, including nearly incompressible ones
			for (size_t o = 0; o < c.size; o += sb) {
				size_t n = c.size - o < sb ? c.size - o : sb;
				size_t tail = r.chance(1, 2) ? r.below(n + 1) : 0;
				gen::fill(r, c.data.data() + o, n - tail, c.bpp, r.chance(1, 2) ? 13 : (int)r.below(gen::KINDS));
				if (tail)
					gen::fill(r, c.data.data() + o + n - tail, tail, c.bpp, (int)r.below(gen::KINDS));
			}
		else
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
		const size_t bound = 12 + c.size + 4 * (c.size / sb + 2);
		gen::Bytes ref(bound), o(bound);
		stenos_context* ctx = stenos_make_context();
		stenos_set_level(ctx, c.level);
		stenos_set_block_size(ctx, shift);
		size_t rr = stenos_compress_generic(ctx, c.data.data(), c.bpp, c.size, ref.data(), bound);
		if (stenos_has_error(rr)) {
			violation("threads:compress", c.str() + fmt(" shift=%zd: %zd", (ssize_t)shift, (ssize_t)rr));
			stenos_destroy_context(ctx);
			return;
		}
		ref.resize(rr);
		std::vector<size_t> sbs = mut::superblock_offsets(ref, c.bpp);
		maximum("superblocks", sbs.size());
		if (sbs.size() > 1)
			count("multi_superblock_inputs");
		unsigned tries = (unsigned)r.range(2, 5);
		for (unsigned k = 0; k < tries; ++k) {
			int t = r.chance(1, 8) ? (r.chance(1, 2) ? 64 : 1000) : (int)r.range(2, 20);
			if (r.chance(1, 4) && sbs.size() > 1) // thread counts around the number of superblocks
				t = (int)(sbs.size() + r.below(3)) - 1 + (sbs.size() < 2);
			if (t < 1)
				t = 2;
			note(c.str() + fmt(" shift=%zd threads=%d superblocks=%zu", (ssize_t)shift, t, sbs.size()));
			stenos_set_threads(ctx, t);
			std::fill(o.begin(), o.end(), 0x5A);
			size_t on = r.chance(1, 3) ? rr : bound; // exactly the needed room, or the usual one
			size_t r2 = stenos_compress_generic(ctx, c.data.data(), c.bpp, c.size, o.data(), bound);
			if (r2 != rr || memcmp(o.data(), ref.data(), rr))
				violation("threads:compressed-bytes", c.str() + fmt(" shift=%zd threads=%d: %zd bytes, single-threaded %zd", (ssize_t)shift, t, (ssize_t)r2, (ssize_t)rr));
			(void)on;
			gen::Bytes d(c.size, 0x77);
			stenos_set_threads(ctx, t);
			size_t ds = stenos_decompress_generic(ctx, ref.data(), c.bpp, rr, d.data(), c.size);
			if (ds != c.size || d != c.data)
				violation("threads:decompressed", c.str() + fmt(" shift=%zd threads=%d: %zd", (ssize_t)shift, t, (ssize_t)ds));
			count("compressions_compared");
			evaluated(hcomb(fnv(ref.data(), rr), t), sbs.size() > 1);
		}
		// arbitrary bytes: same outcome
		for (unsigned k = 0; k < 6; ++k) {
			gen::Bytes f = ref;
			size_t size = c.size, bpp = c.bpp;
			std::string how;
			if (r.chance(1, 4)) {
				bpp = 1 + r.below(20);
				f = mut::forge(r, bpp, size);
				how = "forged";
			}
			else
				how = mut::mutate(r, f, bpp);
			int t = (int)r.range(2, 9);
			gen::Bytes a(size + 8, 1), b(size + 8, 2);
			note(c.str() + " outcome " + how + fmt(" threads=%d", t));
			stenos_set_threads(ctx, 1);
			size_t r1 = stenos_decompress_generic(ctx, f.data(), bpp, f.size(), a.data(), size);
			stenos_set_threads(ctx, t);
			size_t r2 = stenos_decompress_generic(ctx, f.data(), bpp, f.size(), b.data(), size);
			bool e1 = stenos_has_error(r1), e2 = stenos_has_error(r2);
			if (e1 != e2 || (!e1 && r1 != r2))
				violation("threads:outcome", c.str() + " " + how + fmt(" threads=%d: %zd, single-threaded %zd", t, (ssize_t)r2, (ssize_t)r1));
			else if (!e1 && memcmp(a.data(), b.data(), r1))
				violation("threads:outcome-bytes", c.str() + " " + how + fmt(" threads=%d", t));
			count(e1 ? "rejected_by_both" : "decoded_by_both");
			evaluated(hcomb(fnv(f.data(), f.size()), t));
		}
		stenos_destroy_context(ctx);
		if (i < 4)
			sample(c.str() + fmt(" shift=%zd superblocks=%zu, %u thread counts", (ssize_t)shift, sbs.size(), tries));
		maximum("injected_delays_per_shard", perturb::delays.load());
	});
}
