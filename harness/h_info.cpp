// P12: frame information against the known input and against decompression.
#include "gen.hpp"
#include "guard.hpp"
#include "mutate.hpp"
#include <stenos/stenos.h>
using namespace vh;

int main(int argc, char** argv)
{
	static Guard gf, go;
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		gen::Case c = gen::make(r, 60000);
		if (r.chance(1, 12)) {
			static const size_t b[] = { 65534, 65533, 32768, 20000, 513, 512 };
			c.bpp = b[r.below(6)];
			c.size = r.below(c.bpp * 300);
			c.level = (int)r.below(4);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, 1 + (int)r.below(3));
		}
		else if (r.chance(1, 6)) { // big sizes exercise the shift at every level
			c.size = 131072 * r.range(1, 16) + r.below(3) - 1;
			c.kind = 1 + (int)r.below(3);
			c.level = (int)r.below(10);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
		}
		size_t shift = STENOS_NO_BLOCK_SHIFT;
		if (r.chance(1, 4)) {
			shift = r.below(7);
			if (((c.bpp * 256) << shift) >= STENOS_MAX_BLOCK_BYTES)
				shift = STENOS_NO_BLOCK_SHIFT;
		}
		bool limited = r.chance(1, 8);
		size_t sb = shift == STENOS_NO_BLOCK_SHIFT ? 65792 : (c.bpp * 256) << shift;
		size_t bound = 12 + c.size + 4 * (c.size / std::min(sb, (size_t)65792) + 2);
		gen::Bytes f(bound);
		stenos_context* ctx = stenos_make_context();
		stenos_set_level(ctx, c.level);
		stenos_set_threads(ctx, r.chance(1, 4) ? 4 : 1);
		stenos_set_block_size(ctx, shift);
		if (limited)
			stenos_set_max_nanoseconds(ctx, r.chance(1, 2) ? 1 : 3600 * 1000000000ull);
		std::string d = c.str() + fmt(" shift=%zd limited=%d", (ssize_t)shift, (int)limited);
		note(d);
		size_t rr = stenos_compress_generic(ctx, c.data.data(), c.bpp, c.size, f.data(), bound);
		stenos_destroy_context(ctx);
		if (stenos_has_error(rr)) {
			violation("info:compress", d + fmt(": %zd", (ssize_t)rr));
			return;
		}
		f.resize(rr);
		ref::Frame fr;
		gen::Bytes refout;
		std::string e = ref::decode(f.data(), rr, c.bpp, refout, nullptr);
		std::string e2 = ref::parse(f.data(), rr, c.bpp, fr);
		if (!e.empty() || !e2.empty() || refout != c.data)
			violation("info:layout", d + ": " + e + e2);
		// every prefix up to 16 bytes, and the whole frame
		for (size_t n = 0; n <= 17; ++n) {
			size_t len = n <= 16 ? n : rr;
			if (len > rr)
				continue;
			uint8_t* p = gf.high(len);
			memcpy(p, f.data(), len);
			stenos_info info = { 0x1111, 0x2222 };
			note(d + fmt(" prefix=%zu", len));
			size_t h = stenos_get_info(p, c.bpp, len, &info);
			bool enough = len >= fr.header;
			if (!enough) {
				if (!stenos_has_error(h))
					violation("info:short-prefix", d + fmt(": %zu bytes of a %zu bytes header accepted", len, fr.header));
				else if (!documented_error(h))
					violation("info:error-code", d + fmt(": %zd", (ssize_t)h));
				count("short_prefixes");
			}
			else {
				if (stenos_has_error(h))
					violation("info:refused", d + fmt(": prefix of %zu bytes refused: %zd", len, (ssize_t)h));
				else {
					if (info.decompressed_size != c.size)
						violation("info:size", d + fmt(": announced %zu", info.decompressed_size));
					if (info.superblock_size != fr.superblock)
						violation("info:superblock", d + fmt(": announced superblock %zu, in use %zu", info.superblock_size, fr.superblock));
					if (h != fr.header || h > 12)
						violation("info:header-length", d + fmt(": %zu instead of %zu", h, fr.header));
				}
				count("full_headers");
			}
			evaluated(hcomb(hcomb(c.bpp, c.size), hcomb(len, vh::fnv(f.data(), f.size() < 64 ? f.size() : 64))), len > 0);
		}
		if (fr.sbs.size() > 1)
			count("multi_superblock_frames");
		count(fmt("shift_%u", fr.shift));
		if (i < 4)
			sample(d + fmt(" -> header %zu bytes, superblock %zu, %zu superblocks", fr.header, fr.superblock, fr.sbs.size()));

		// altered frames
		unsigned tries = (unsigned)r.range(3, 10);
		for (unsigned k = 0; k < tries; ++k) {
			gen::Bytes g = f;
			size_t bpp = c.bpp;
			std::string md;
			switch (r.below(6)) {
				case 0: // header bytes
					for (size_t q = 1 + r.below(3); q; --q) {
						size_t p = r.below(g.size() < 12 ? g.size() : 12);
						g[p] = r.chance(1, 2) ? (uint8_t)(g[p] ^ (1u << r.below(8))) : r.u8();
					}
					md = "header";
					break;
				case 1: // announced size
					if (g.size() >= 8) {
						uint64_t v = c.size + r.below(9) - 4;
						if (r.chance(1, 3))
							v = c.size + (r.chance(1, 2) ? fr.superblock : (size_t)0 - fr.superblock);
						for (int q = 0; q < 7; ++q)
							g[1 + q] = (uint8_t)(v >> (8 * q));
					}
					md = "size";
					break;
				case 2: // other element size
					bpp = r.chance(1, 2) ? gen::pick_bpp(r) : 1 + r.below(65534);
					md = "bpp";
					break;
				case 3:
					g.resize(r.below(g.size() + 1));
					md = "cut";
					break;
				case 4: {
					g.resize(r.below(40));
					for (auto& b : g)
						b = r.chance(1, 3) ? r.u8() : (uint8_t)r.below(3);
					if (!g.empty())
						g[0] = r.chance(1, 2) ? 255 : (uint8_t)r.below(7);
					md = "garbage";
				} break;
				default:
					md = mut::mutate(r, g, c.bpp);
			}
			uint8_t* p = gf.high(g.size());
			if (!g.empty())
				memcpy(p, g.data(), g.size());
			stenos_info info = { 0, 0 };
			std::string dd = d + fmt(" bpp=%zu altered: ", bpp) + md;
			note(dd);
			size_t h = stenos_get_info(p, bpp, g.size(), &info);
			if (stenos_has_error(h)) {
				count("altered_refused");
				if (!documented_error(h))
					violation("info:error-code", dd + fmt(": %zd", (ssize_t)h));
			}
			else {
				if (h > 12 || h > g.size())
					violation("info:header-length", dd + fmt(": header of %zu bytes in %zu", h, g.size()));
				count("altered_described");
			}
			size_t room = c.size + 1000 + r.below(300000);
			uint8_t* o = go.high(room);
			size_t ds = stenos_decompress(p, bpp, g.size(), o, room);
			if (!stenos_has_error(ds)) {
				if (!stenos_has_error(h) && ds != info.decompressed_size)
					violation("info:disagreement", dd + fmt(": announced %zu, decompressed %zu", info.decompressed_size, ds));
				count("altered_decoded");
			}
			// exactly the announced room must give the same outcome
			if (!stenos_has_error(h) && info.decompressed_size <= room) {
				uint8_t* x = go.high(info.decompressed_size);
				size_t d2 = stenos_decompress(p, bpp, g.size(), x, info.decompressed_size);
				if (stenos_has_error(d2) != stenos_has_error(ds) || (!stenos_has_error(d2) && d2 != ds))
					violation("info:exact-room", dd + fmt(": %zd with %zu bytes of room, %zd with the announced %zu", (ssize_t)ds, room, (ssize_t)d2, info.decompressed_size));
				count("announced_rooms");
			}
			evaluated(hcomb(hcomb(bpp, ds), vh::fnv(g.data(), g.size())), !g.empty());
		}
	});
}
