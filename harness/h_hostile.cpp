// P04: arbitrary bytes decode safely. Run under ASan+UBSan, input and output in exactly sized heap blocks.
#include "gen.hpp"
#include "guard.hpp"
#include "zstdregion.hpp"
#include "mutate.hpp"
#include <memory>
#include <stenos/stenos.h>
using namespace vh;

int main(int argc, char** argv)
{
	std::vector<gen::Bytes> pool; // recent frames, for splicing
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		size_t bpp = r.chance(1, 4) ? r.range(1, 9) : gen::pick_bpp(r);
		size_t size = 0;
		gen::Bytes f;
		std::string what;
		unsigned m = (unsigned)r.below(10);
		if (m < 4) { // forged
			if (bpp > 70)
				bpp = 1 + r.below(70);
			f = mut::forge(r, bpp, size);
			what = "forged";
		}
		else if (m < 9) {
			gen::Case c = gen::make(r, r.chance(1, 2) ? 4000 : 30000);
			bpp = c.bpp;
			size = c.size;
			f = mut::compress(c.data, c.bpp, c.level > 6 ? 3 : c.level, r.chance(1, 3) ? r.below(4) : STENOS_NO_BLOCK_SHIFT);
			what = "mutated " + c.str();
		}
		else { // plain garbage
			f.resize(r.below(300));
			for (auto& b : f)
				b = r.u8();
			size = r.below(70000);
			if (f.size() > 8 && r.chance(3, 4)) {
				f[0] = r.chance(1, 2) ? 255 : (uint8_t)r.below(5);
				size = r.below(bpp * 700) + 1;
				for (int k = 0; k < 7; ++k)
					f[1 + k] = (uint8_t)((uint64_t)size >> (8 * k));
				if (f[0] == 255 && f.size() > 16) {
					size_t sb = bpp * 256 * r.range(1, 3);
					for (int k = 0; k < 4; ++k)
						f[8 + k] = (uint8_t)(sb >> (8 * k));
				}
			}
			what = "garbage";
		}
		if (f.empty())
			return;
		stenos_context* ctx = stenos_make_context();
		unsigned rounds = (unsigned)r.range(6, 14);
		for (unsigned k = 0; k < rounds; ++k) {
			gen::Bytes g = f;
			std::string how = "as is";
			if (k)
				how = mut::mutate(r, g, bpp);
			if (r.chance(1, 20) && !pool.empty()) { // splice with another frame
				const gen::Bytes& o = pool[r.below(pool.size())];
				size_t a = r.below(g.size() + 1), b = r.below(o.size() + 1);
				g.resize(a);
				g.insert(g.end(), o.begin() + b, o.end());
				how += "splice ";
			}
			size_t db = bpp;
			if (r.chance(1, 12))
				db = gen::pick_bpp(r);
			size_t on = size;
			switch (r.below(6)) {
				case 0: on = size + r.below(100); break;
				case 1: on = r.below(size + 1); break;
				default: break;
			}
			int th = r.chance(1, 6) ? (int)r.range(2, 5) : 1;
			std::unique_ptr<uint8_t[]> in(new uint8_t[g.size()]), out(new uint8_t[on]);
			memcpy(in.get(), g.data(), g.size());
			if (r.chance(1, 8)) {
				stenos_destroy_context(ctx);
				ctx = stenos_make_context();
			}
			stenos_set_threads(ctx, th);
			note(what + " " + how + fmt(" bpp=%zu in=%zu out=%zu threads=%d", db, g.size(), on, th));
			stenos_info info = { 0, 0 };
			size_t hi = stenos_get_info(in.get(), db, g.size(), &info);
			size_t rr = stenos_decompress_generic(ctx, in.get(), db, g.size(), out.get(), on);
			if (stenos_has_error(rr)) {
				if (!documented_error(rr))
					violation("hostile:code", what + " " + how + fmt(": %zd", (ssize_t)rr));
				count("rejected");
				count(fmt("code_%zd", (ssize_t)rr));
			}
			else {
				uint64_t announced = 0;
				for (int q = 6; q >= 0 && g.size() >= 8; --q)
					announced = announced << 8 | g[1 + q];
				if (rr > on || rr != announced)
					violation("hostile:size", what + " " + how + fmt(" bpp=%zu: returned %zu, announced %llu, dst %zu", db, rr, (unsigned long long)announced, on));
				if (!stenos_has_error(hi) && info.decompressed_size != rr)
					violation("hostile:info", what + " " + how + fmt(": info says %zu (%zd), decompression %zu", info.decompressed_size, (ssize_t)hi, rr));
				// every output byte must be initialised: read it all
				count("decoded");
				if (!k && m < 4)
					count("forged_decoded");
			}
			if (r.chance(1, 4)) { // prefix information
				size_t n = r.below(g.size() < 16 ? g.size() + 1 : 16);
				std::unique_ptr<uint8_t[]> p(new uint8_t[n]);
				memcpy(p.get(), g.data(), n);
				stenos_get_info(p.get(), db, n, &info);
			}
			evaluated(hcomb(fnv(g.data(), g.size()), rr), g.size() > 8);
		}
		stenos_destroy_context(ctx);
		if (f.size() < 20000) {
			if (pool.size() < 32)
				pool.push_back(f);
			else
				pool[r.below(32)] = f;
		}
		if (i < 4)
			sample(what + fmt(" frame=%zu bytes, %u variants", f.size(), rounds));
	});
}
