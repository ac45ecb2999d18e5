// P03: histories of valid API calls on exactly sized heap blocks, under ASan+UBSan+LSan or valgrind memcheck.
#include "gen.hpp"
#include <memory>
#include <stenos/stenos.h>
#include <stenos/timer.hpp>
#include <valgrind/memcheck.h>
using namespace vh;

static void all_defined(const void* p, size_t n, const char* what, const std::string& c)
{
	if (RUNNING_ON_VALGRIND && n) {
		uintptr_t bad = VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
		if (bad)
			violation(std::string("mem:undefined-") + what, c + fmt(": byte %zu of %zu is uninitialised", (size_t)(bad - (uintptr_t)p), n));
	}
}

int main(int argc, char** argv)
{
	const bool vg = RUNNING_ON_VALGRIND;
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		stenos_context* ctx = stenos_make_context();
		unsigned ops = (unsigned)r.range(1, 5);
		for (unsigned k = 0; k < ops; ++k) {
			gen::Case c = gen::make(r, vg ? 12000 : 160000);
			if (!vg && r.chance(1, 150)) {
				c.bpp = r.chance(1, 2) ? 65534 : r.range(2000, 65534);
				c.size = r.below(c.bpp * 258);
				c.level = (int)r.below(4);
				c.data.resize(c.size);
				gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
			}
			if (vg && c.bpp > 600)
				c.bpp = 1 + r.below(40);
			if (vg && c.level > 6)
				c.level -= 5;
			int threads = r.chance(1, 5) ? (int)r.range(2, 6) : 1;
			size_t shift = r.chance(1, 4) ? r.below(6) : STENOS_NO_BLOCK_SHIFT;
			if (shift != STENOS_NO_BLOCK_SHIFT && ((c.bpp * 256) << shift) >= STENOS_MAX_BLOCK_BYTES)
				shift = STENOS_NO_BLOCK_SHIFT;
			size_t bound = stenos_bound(c.size);
			if (shift != STENOS_NO_BLOCK_SHIFT)
				bound = std::max(bound, 12 + c.size + 4 * (c.size / ((c.bpp * 256) << shift) + 1)); // the shift is ignored with a time limit
			std::unique_ptr<uint8_t[]> src(new uint8_t[c.size]), dst(new uint8_t[bound]);
			if (c.size)
				memcpy(src.get(), c.data.data(), c.size);
			bool limit = r.chance(1, 8);
			uint64_t ns = limit ? (r.chance(1, 2) ? 1 + r.below(100000) : 1000000000ull * 3600) : 0;
			std::string d = c.str() + fmt(" threads=%d shift=%zd ns=%llu", threads, (ssize_t)shift, (unsigned long long)ns);
			note(d);
			size_t rr;
			if (r.chance(1, 6) && shift == STENOS_NO_BLOCK_SHIFT)
				rr = stenos_compress(src.get(), c.bpp, c.size, dst.get(), bound, c.level);
			else {
				stenos_set_level(ctx, c.level);
				stenos_set_threads(ctx, threads);
				stenos_set_max_nanoseconds(ctx, ns);
				stenos_set_block_size(ctx, shift);
				rr = stenos_compress_generic(ctx, src.get(), c.bpp, c.size, dst.get(), bound);
				count(limit ? "time_limited" : "unlimited");
			}
			if (stenos_has_error(rr)) {
				violation("mem:compress", d + fmt(": %zd", (ssize_t)rr));
				continue;
			}
			all_defined(dst.get(), rr, "frame", d);
			std::unique_ptr<uint8_t[]> frame(new uint8_t[rr]), out(new uint8_t[c.size]);
			memcpy(frame.get(), dst.get(), rr);
			dst.reset();
			stenos_info info;
			size_t hl = rr < 12 ? rr : 12;
			std::unique_ptr<uint8_t[]> head(new uint8_t[hl]);
			memcpy(head.get(), frame.get(), hl);
			size_t h = stenos_get_info(head.get(), c.bpp, hl, &info);
			all_defined(&info, sizeof info, "info", d);
			if (stenos_has_error(h) || info.decompressed_size != c.size)
				violation("mem:info", d);
			size_t ds = r.chance(1, 5) ? stenos_decompress(frame.get(), c.bpp, rr, out.get(), c.size)
						   : stenos_decompress_generic(ctx, frame.get(), c.bpp, rr, out.get(), c.size);
			if (ds != c.size)
				violation("mem:decompress", d + fmt(": %zd", (ssize_t)ds));
			else {
				all_defined(out.get(), c.size, "output", d);
				if (c.size && memcmp(out.get(), c.data.data(), c.size))
					violation("mem:bytes", d);
			}
			if (!stenos_memory_footprint(ctx))
				violation("mem:footprint", d);
			if (r.chance(1, 5))
				stenos_reset_context(ctx);
			evaluated(hcomb(hcomb(c.bpp, c.size), fnv(frame.get(), rr)), c.size > 0);
			if (i < 4)
				sample(d + fmt(" -> %zu", rr));
		}
		stenos_destroy_context(ctx);
		if (r.chance(1, 20))
			stenos_destroy_context(nullptr);
		stenos_timer* t = stenos_make_timer();
		stenos_tick(t);
		uint64_t v = stenos_tock(t);
		if (vg)
			VALGRIND_CHECK_MEM_IS_DEFINED(&v, sizeof v);
		stenos_destroy_timer(t);
	});
}
