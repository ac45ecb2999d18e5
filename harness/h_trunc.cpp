// P05: strict prefixes and short destinations are errors; a success is determined by the frame alone.
#include "gen.hpp"
#include "guard.hpp"
#include "mutate.hpp"
#include <malloc.h>
#include <stenos/stenos.h>
using namespace vh;
static Guard gs, gd, g2;

static size_t dec(const uint8_t* f, size_t bpp, size_t n, uint8_t* o, size_t on, int threads, uint8_t paint)
{
	mallopt(M_PERTURB, paint);
	stenos_context* x = stenos_make_context();
	stenos_set_threads(x, threads);
	paint_stack(paint);
	size_t r = stenos_decompress_generic(x, f, bpp, n, o, on);
	stenos_destroy_context(x);
	return r;
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		gen::Case c = gen::make(r, r.chance(1, 3) ? 3000 : 120000);
		if (c.size == 0)
			c.size = 1, c.data.assign(1, 42);
		if (c.level > 6)
			c.level -= 5;
		size_t shift = r.chance(1, 3) ? r.below(5) : STENOS_NO_BLOCK_SHIFT;
		gen::Bytes frame = mut::compress(c.data, c.bpp, c.level, shift);
		note(c.str());
		if (frame.empty()) {
			violation("trunc:compress", c.str());
			return;
		}
		uint64_t sig = fnv(frame.data(), frame.size());
		// truncation
		std::vector<size_t> cuts;
		if (frame.size() <= 200)
			for (size_t k = 0; k < frame.size(); ++k)
				cuts.push_back(k);
		else {
			for (size_t k = 0; k < 20; ++k)
				cuts.push_back(k);
			for (int k = 0; k < 40; ++k)
				cuts.push_back(r.below(frame.size()));
			for (size_t k = 1; k < 24; ++k)
				cuts.push_back(frame.size() - k);
			for (size_t b : mut::superblock_offsets(frame, c.bpp))
				for (int k = -2; k < 6; ++k)
					if (b + k < frame.size() && cuts.size() < 150)
						cuts.push_back(b + k);
		}
		for (size_t cut : cuts) {
			int th = r.chance(1, 4) ? (int)r.range(2, 6) : 1;
			uint8_t* f = gs.high(cut);
			memcpy(f, frame.data(), cut);
			uint8_t* o = gd.high(c.size);
			note(c.str() + fmt(" shift=%zd cut=%zu/%zu threads=%d", (ssize_t)shift, cut, frame.size(), th));
			size_t rr = dec(f, c.bpp, cut, o, c.size, th, r.u8());
			if (!stenos_has_error(rr))
				violation("trunc:prefix-accepted", c.str() + fmt(" shift=%zd: prefix of %zu/%zu bytes decoded with %d threads: %zu", (ssize_t)shift, cut, frame.size(), th, rr));
			else if (!documented_error(rr))
				violation("trunc:code", c.str() + fmt(": code %zd", (ssize_t)rr));
			evaluated(hcomb(sig, cut * 64 + th));
			count("truncations");
		}
		// short destination
		for (int k = 0; k < 6; ++k) {
			size_t n = k == 0 ? c.size - 1 : k == 1 ? 0 : r.below(c.size);
			int th = r.chance(1, 4) ? (int)r.range(2, 6) : 1;
			uint8_t* f = gs.high(frame.size());
			memcpy(f, frame.data(), frame.size());
			uint8_t* o = gd.high(n);
			note(c.str() + fmt(" shift=%zd short dst=%zu threads=%d", (ssize_t)shift, n, th));
			size_t rr = dec(f, c.bpp, frame.size(), o, n, th, r.u8());
			if (!stenos_has_error(rr))
				violation("trunc:short-dst-accepted", c.str() + fmt(": dst of %zu/%zu bytes: %zu", n, c.size, rr));
			evaluated(hcomb(sig, 1000000007ull * n + th));
			count("short_destinations");
		}
		// success is a function of the frame only: intact and mutated frames, two memory states
		unsigned muts = (unsigned)r.range(4, 12);
		for (unsigned k = 0; k < muts; ++k) {
			gen::Bytes m = frame;
			std::string how = "intact";
			if (k)
				how = mut::mutate(r, m, c.bpp);
			int th = r.chance(1, 4) ? (int)r.range(2, 6) : 1;
			size_t on = c.size + (r.chance(1, 3) ? r.below(64) : 0);
			uint8_t* o1 = gd.high(on);
			uint8_t* o2 = g2.high(on);
			memset(o1, 0x00, on);
			memset(o2, 0xFF, on);
			// different bytes follow the input
			gen::Bytes b1(m), b2(m);
			b1.resize(m.size() + 64, 0x11);
			b2.resize(m.size() + 64, 0xEE);
			note(c.str() + fmt(" shift=%zd threads=%d ", (ssize_t)shift, th) + how);
			size_t r1 = dec(b1.data(), c.bpp, m.size(), o1, on, th, 0x21);
			size_t r2 = dec(b2.data(), c.bpp, m.size(), o2, on, th, 0xD3);
			bool e1 = stenos_has_error(r1), e2 = stenos_has_error(r2);
			if (e1 != e2 || (!e1 && r1 != r2))
				violation("trunc:outcome-differs", c.str() + " " + how + fmt(" threads=%d: %zd / %zd depending on memory", th, (ssize_t)r1, (ssize_t)r2));
			else if (!e1) {
				if (r1 > on)
					violation("trunc:size", c.str() + " " + how + fmt(": %zu > %zu", r1, on));
				else {
					if (memcmp(o1, o2, r1))
						violation("trunc:output-differs", c.str() + " " + how + fmt(" threads=%d: success but the output depends on memory", th));
					for (size_t q = r1; q < on; ++q)
						if (o1[q] != 0 || o2[q] != 0xFF) {
							violation("trunc:beyond", c.str() + " " + how + ": bytes beyond the returned size modified");
							break;
						}
				}
				count(k ? "mutants_decoded" : "intact_decoded");
			}
			else
				count("mutants_rejected");
			if (!k && e1)
				violation("trunc:intact-rejected", c.str() + fmt(" shift=%zd threads=%d: %zd", (ssize_t)shift, th, (ssize_t)r1));
			evaluated(hcomb(fnv(m.data(), m.size()), r1));
		}
		if (i < 4)
			sample(c.str() + fmt(" frame=%zu bytes, %zu cuts, %u memory differentials", frame.size(), cuts.size(), muts));
	});
}
