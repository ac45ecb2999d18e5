// P25: frames recorded from the pinned version are decoded to their original bytes.
#include "gen.hpp"
#include "guard.hpp"
#include "refdec.hpp"
#include <stenos/stenos.h>
using namespace vh;

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	std::vector<uint8_t> all;
	FILE* f = fopen(opt("golden").c_str(), "rb");
	if (!f) {
		perror("golden");
		return 3;
	}
	uint8_t b[65536];
	for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;)
		all.insert(all.end(), b, b + n);
	fclose(f);
	struct Rec {
		uint64_t bpp, size, csize, hash;
		const uint8_t* p;
	};
	std::vector<Rec> recs;
	for (size_t o = 0; o + 32 <= all.size();) {
		Rec x;
		memcpy(&x, &all[o], 32);
		x.p = &all[o + 32];
		o += 32 + x.csize;
		if (o > all.size()) {
			fprintf(stderr, "golden file truncated\n");
			return 3;
		}
		recs.push_back(x);
	}
	ref::Stats total;
	Guard gi, go;
	stenos_context* ctx = stenos_make_context();
	int rc = run(argc, argv, [&](uint64_t i, Rng& r) {
		Rec& x = recs[i % recs.size()];
		int threads = i < recs.size() ? 1 : (int)r.range(2, 6);
		std::string d = fmt("golden frame %zu: bpp=%zu size=%zu frame=%zu threads=%d", (size_t)(i % recs.size()), (size_t)x.bpp, (size_t)x.size, (size_t)x.csize, threads);
		note(d);
		uint8_t* in = gi.high(x.csize);
		memcpy(in, x.p, x.csize);
		uint8_t* out = go.high(x.size);
		memset(out, 0xC3, x.size);
		stenos_set_threads(ctx, threads);
		size_t ds = r.chance(1, 4) ? stenos_decompress(in, x.bpp, x.csize, out, x.size) : stenos_decompress_generic(ctx, in, x.bpp, x.csize, out, x.size);
		if (ds != x.size)
			violation("format:golden-refused", d + fmt(": %zd", (ssize_t)ds));
		else if (fnv(out, x.size) != x.hash)
			violation("format:golden-bytes", d);
		stenos_info info;
		size_t h = stenos_get_info(in, x.bpp, x.csize < 12 ? x.csize : 12, &info);
		if (stenos_has_error(h) || info.decompressed_size != x.size)
			violation("format:golden-info", d);
		if (i < recs.size()) {
			ref::Bytes o;
			std::string e = ref::decode(in, x.csize, x.bpp, o, &total);
			if (!e.empty() || fnv(o.data(), o.size()) != x.hash)
				violation("format:reference", d + ": " + e); // the monitor's decoder no longer describes the pinned format
			count("golden_frames");
		}
		evaluated(hcomb(i % recs.size(), (uint64_t)threads), x.size > 0);
		if (i < 3)
			sample(d);
	});
	(void)rc;
	for (int k = 0; k < 8; ++k)
		if (total.code[k])
			count(fmt("golden_superblock_code_%d", k), total.code[k]);
	for (int k = 0; k < 16; ++k)
		count(fmt("golden_row_%02d", k), total.row[k] + total.prow[k]);
	count("golden_lz_blocks", total.lz_block);
	count("golden_copy_blocks", total.copy_block);
	count("golden_partial_blocks", total.partial);
	write_out();
	return 0;
}
