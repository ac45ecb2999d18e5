// P01 round trip / P25 reference decoding: compress, check, decode with the library and with the reference decoder.
#include "gen.hpp"
#include "refdec.hpp"
#include <stenos/stenos.h>
using namespace vh;

int main(int argc, char** argv)
{
	ref::Stats total;
	parse_args(argc, argv);
	const bool with_ref = opt("ref", "1") == "1";
	const std::string key = opt("key", "roundtrip");
	const size_t cap = (size_t)atoll(opt("cap", "400000").c_str());
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		gen::Case c = gen::make(r, r.chance(1, 40) ? 4 * cap : cap);
		if (i % 97 == 96) { // big element sizes
			static const size_t b[] = { 65534, 65533, 65279, 65000, 32768, 20000, 8193, 65534 };
			c.bpp = b[r.below(8)];
			c.size = r.chance(1, 2) ? r.below(c.bpp * 300) : c.bpp * r.range(1, 300);
			c.level = (int)r.below(4);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
		}
		if (i % 331 == 330) { // superblocks as large as can be: the shift of the level is reduced
			static const size_t b[] = { 4096, 8192, 16384, 32768, 12288, 60000 };
			static const int least[] = { 9, 7, 5, 3, 5, 3 }, kinds[] = { 0, 1, 10, 15 };
			size_t k = r.below(6);
			c.bpp = b[k];
			c.level = (int)r.range((uint64_t)least[k], 9);
			c.size = c.bpp * 256 + r.below(c.bpp * 60);
			c.kind = kinds[r.below(4)];
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
			count("largest_superblocks");
		}
		int threads = r.chance(1, 3) ? (int)r.range(2, 17) : 1;
		size_t shift = STENOS_NO_BLOCK_SHIFT;
		if (r.chance(1, 6))
			shift = r.below(11);
		size_t a1 = r.below(33), a2 = r.below(33), a3 = r.below(33);
		note(c.str() + fmt(" threads=%d shift=%zd align=%zu,%zu,%zu", threads, (ssize_t)shift, a1, a2, a3));

		gen::Bytes src(c.size + 64);
		uint8_t* s = src.data() + a1;
		memcpy(s, c.data.data(), c.size);
		size_t bound = stenos_bound(c.size);
		if (shift != STENOS_NO_BLOCK_SHIFT) {
			size_t sb = (c.bpp * 256) << shift;
			if (sb >= STENOS_MAX_BLOCK_BYTES)
				shift = STENOS_NO_BLOCK_SHIFT;
			else
				bound = 12 + c.size + 4 * (c.size / sb + 1);
		}
		gen::Bytes dst(bound + 64);
		uint8_t* d = dst.data() + a2;
		size_t cs;
		stenos_context* ctx = stenos_make_context();
		bool simple = r.chance(1, 5) && shift == STENOS_NO_BLOCK_SHIFT;
		if (simple)
			cs = stenos_compress(s, c.bpp, c.size, d, bound, c.level);
		else {
			stenos_set_level(ctx, c.level);
			stenos_set_threads(ctx, threads);
			if (shift != STENOS_NO_BLOCK_SHIFT && stenos_has_error(stenos_set_block_size(ctx, shift)))
				violation(key + ":set_block_size", "valid block shift refused: " + c.str());
			cs = stenos_compress_generic(ctx, s, c.bpp, c.size, d, bound);
		}
		if (stenos_has_error(cs)) {
			violation(key + ":compress-error", c.str() + fmt(" threads=%d shift=%zd: compress returned %zd", threads, (ssize_t)shift, (ssize_t)cs));
			stenos_destroy_context(ctx);
			return;
		}
		if (cs > bound)
			violation(key + ":bound", c.str() + fmt(": %zu > bound %zu", cs, bound));
		if (memcmp(s, c.data.data(), c.size))
			violation(key + ":input-modified", c.str());
		gen::Bytes comp(d, d + cs);
		gen::Bytes out(c.size + 64, 0xA5);
		uint8_t* o = out.data() + a3;
		int dthreads = r.chance(1, 3) ? (int)r.range(2, 17) : 1;
		size_t dsz = r.chance(1, 2) ? c.size : c.size + r.below(20);
		size_t ds;
		if (r.chance(1, 4))
			ds = stenos_decompress(comp.data(), c.bpp, cs, o, dsz);
		else {
			stenos_context* c2 = r.chance(1, 2) ? ctx : stenos_make_context();
			stenos_set_threads(c2, dthreads);
			ds = stenos_decompress_generic(c2, comp.data(), c.bpp, cs, o, dsz);
			if (c2 != ctx)
				stenos_destroy_context(c2);
		}
		if (ds != c.size)
			violation(key + ":size", c.str() + fmt(" threads=%d/%d shift=%zd: decompress returned %zd", threads, dthreads, (ssize_t)shift, (ssize_t)ds));
		else if (memcmp(o, c.data.data(), c.size)) {
			size_t k = 0;
			while (o[k] == c.data[k])
				++k;
			violation(key + ":bytes", c.str() + fmt(" threads=%d/%d shift=%zd: first difference at %zu", threads, dthreads, (ssize_t)shift, k));
		}
		stenos_destroy_context(ctx);
		uint64_t sig = hcomb(hcomb(c.bpp, c.size), hcomb(fnv(comp.data(), comp.size()), c.level));
		if (with_ref) {
			ref::Stats st1;
			ref::Bytes ro;
			ref::Frame fr;
			std::string e = ref::decode(comp.data(), cs, c.bpp, ro, &st1, &fr);
			if (!e.empty())
				violation("format:refdec", c.str() + fmt(" threads=%d shift=%zd: reference decoder: ", threads, (ssize_t)shift) + e);
			else if (ro != c.data)
				violation("format:refbytes", c.str() + fmt(" threads=%d shift=%zd: reference decoder output differs", threads, (ssize_t)shift));
			total.add(st1);
			maximum("superblocks_in_frame", fr.sbs.size());
		}
		evaluated(sig, c.size > 0);
		count(std::string("kind_") + gen::kind_names[c.kind]);
		count(fmt("level_%d", c.level));
		if (i < 4)
			sample(c.str() + fmt(" threads=%d shift=%zd -> %zu bytes", threads, (ssize_t)shift, cs));
		if (i + st().nshards >= st().cases && with_ref) {
			static const char* cn[] = { "", "BLOCK", "ZSTD", "TRANSPOSED_ZSTD", "TRANSPOSED_DELTA_ZSTD", "BLOCK_ZSTD", "COPY", "" };
			for (int k = 1; k <= 6; ++k)
				count(std::string("superblock_") + cn[k], total.code[k]);
			for (int k = 0; k < 4; ++k)
				count(fmt("plane_type_%d", k), total.plane[k]);
			for (int k = 0; k < 16; ++k)
				count(fmt("row_header_%02d", k), total.row[k]), count(fmt("partial_row_header_%02d", k), total.prow[k]);
			count("block_copy", total.copy_block);
			count("block_lz", total.lz_block);
			count("lz_near", total.lz_near);
			count("lz_far", total.lz_far);
			count("lz_raw_group", total.lz_raw_group);
			count("block_partial", total.partial);
			count("partial_raw_tail", total.partial_raw);
			count("partial_plane_same", total.partial_same);
		}
	});
}
