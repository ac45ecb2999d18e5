// P22: parameter validation.
#include "gen.hpp"
#include "guard.hpp"
#include "mutate.hpp"
#include <climits>
#include <stenos/stenos.h>
using namespace vh;

namespace {
gen::Bytes run_one(stenos_context* x, const gen::Case& c, size_t bpp, size_t bound, size_t& rr)
{
	gen::Bytes o(bound, 0xA5);
	rr = stenos_compress_generic(x, c.data.data(), bpp, c.size, o.data(), bound);
	if (!stenos_has_error(rr))
		o.resize(rr);
	return o;
}
bool untouched(const gen::Bytes& b)
{
	for (auto v : b)
		if (v != 0xA5)
			return false;
	return true;
}
int pick_int(Rng& r)
{
	static const int v[] = { INT_MIN, INT_MIN + 1, -1000, -2, -1, 0, 1, 2, 9, 10, 11, 22, 100, 1 << 16, 1 << 26, 1 << 27, INT_MAX - 1, INT_MAX };
	return r.chance(1, 3) ? (int)r.u32() : v[r.below(18)];
}
} // namespace

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		gen::Case c = gen::make(r, 30000);
		if (r.chance(1, 5)) {
			c.bpp = 1 + r.below(12);
			c.size = 131072 * r.range(1, 4) + r.below(500);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
		}
		size_t bound = 12 + c.size + 4 * (c.size / 256 + 2);
		stenos_context* x = stenos_make_context();
		// the parameters as documented
		int level = 1, threads = 1;
		size_t shift = STENOS_NO_BLOCK_SHIFT;
		std::string h;
		unsigned ops = (unsigned)r.range(1, 7);
		for (unsigned k = 0; k < ops; ++k) {
			switch (r.below(6)) {
				case 0:
				case 1: {
					int v = pick_int(r);
					level = v < 0 ? 0 : v > 9 ? 9 : v;
					h += fmt("level(%d) ", v);
					note(h);
					if (stenos_has_error(stenos_set_level(x, v)))
						violation("param:level", h + ": level refused instead of clamped");
					count(v < 0 || v > 9 ? "levels_out_of_range" : "levels_in_range");
				} break;
				case 2: {
					int v = pick_int(r);
					threads = v < 1 ? 1 : v;
					h += fmt("threads(%d) ", v);
					note(h);
					if (stenos_has_error(stenos_set_threads(x, v)))
						violation("param:threads", h + ": thread count refused instead of clamped");
					count(v < 1 ? "threads_out_of_range" : "threads_in_range");
				} break;
				case 3: {
					static const size_t s[] = { 0, 1, 8, 15, 16, 17, 31, 32, 63, 64, 65, 255, 256, (size_t)-2, (size_t)1 << 32, ((size_t)1 << 32) + 3, (size_t)1 << 63, STENOS_NO_BLOCK_SHIFT };
					size_t v = r.chance(1, 3) ? r.below(20) : s[r.below(18)];
					bool ok = v < 16 || v == STENOS_NO_BLOCK_SHIFT;
					h += fmt("block(%zd) ", (ssize_t)v);
					note(h);
					size_t e = stenos_set_block_size(x, v);
					if (!!stenos_has_error(e) == ok)
						violation("param:block", h + fmt(": returned %zd", (ssize_t)e));
					if (stenos_has_error(e) && !documented_error(e))
						violation("param:code", h + fmt(": %zd", (ssize_t)e));
					if (ok)
						shift = v;
					count(ok ? "block_shifts_accepted" : "block_shifts_refused");
				} break;
				case 4: {
					h += "reset ";
					if (r.chance(1, 3)) {
						stenos_reset_context(x);
						level = threads = 1;
						shift = STENOS_NO_BLOCK_SHIFT;
					}
					else {
						stenos_set_max_nanoseconds(x, r.u64());
						if (stenos_has_error(stenos_set_max_nanoseconds(x, 0)))
							violation("param:ns", h);
					}
				} break;
				default: { // an invalid element size, anywhere
					static const size_t b[] = { 0, 65535, 65536, 65537, 1 << 20, (1u << 24) - 1, 1u << 24, (size_t)1 << 32, ((size_t)1 << 32) + 4, (size_t)1 << 56, (size_t)1 << 63, (size_t)-1, (size_t)-9 };
					size_t bpp = b[r.below(13)];
					h += fmt("bpp=%zu ", bpp);
					note(h);
					gen::Bytes o(bound, 0xA5);
					bool limited = r.chance(1, 4);
					if (limited)
						stenos_set_max_nanoseconds(x, 1000000);
					size_t sz = r.chance(1, 6) ? 0 : c.size;
					bool simple = r.chance(1, 4);
					size_t e = simple ? stenos_compress(c.data.data(), bpp, sz, o.data(), bound, pick_int(r)) : stenos_compress_generic(x, c.data.data(), bpp, sz, o.data(), bound);
					if (!stenos_has_error(e))
						violation("param:bpp", h + fmt("size=%zu level=%d threads=%d: compression accepted (%zd)", sz, level, threads, (ssize_t)e));
					else if (!documented_error(e))
						violation("param:code", h + fmt(": %zd", (ssize_t)e));
					if (!untouched(o))
						violation("param:side-effect", h + ": destination written");
					if (limited)
						stenos_set_max_nanoseconds(x, 0);
					gen::Bytes f = mut::compress(c.data, c.bpp, 1);
					gen::Bytes out(c.size + 8, 0xA5);
					e = simple ? stenos_decompress(f.data(), bpp, f.size(), out.data(), out.size()) : stenos_decompress_generic(x, f.data(), bpp, f.size(), out.data(), out.size());
					if (!stenos_has_error(e))
						violation("param:bpp", h + fmt(": decompression accepted (%zd)", (ssize_t)e));
					else if (!documented_error(e))
						violation("param:code", h + fmt(": %zd", (ssize_t)e));
					if (!untouched(out))
						violation("param:side-effect", h + ": destination of the decompression written");
					stenos_info info = { 1, 2 };
					e = stenos_get_info(f.data(), bpp, f.size(), &info);
					if (!stenos_has_error(e))
						violation("param:bpp", h + ": information accepted");
					else if (!documented_error(e))
						violation("param:code", h + fmt(": %zd", (ssize_t)e));
					count("invalid_element_sizes");
				}
			}
		}
		// now a compression with the parameters reached
		size_t bpp = c.bpp;
		if (r.chance(1, 5)) {
			static const size_t b[] = { 65534, 65533, 32768, 32767, 4096, 2048, 1024, 513, 512, 257, 256, 255 };
			bpp = b[r.below(12)];
		}
		size_t rr;
		std::string d = h + fmt("-> level=%d threads=%d shift=%zd bpp=%zu size=%zu", level, threads, (ssize_t)shift, bpp, c.size);
		note(d);
		bool valid = shift == STENOS_NO_BLOCK_SHIFT || ((bpp * 256) << shift) < STENOS_MAX_BLOCK_BYTES;
		gen::Bytes got = run_one(x, c, bpp, bound, rr);
		if (!valid) {
			if (!stenos_has_error(rr))
				violation("param:superblock", d + fmt(": superblock of %zu bytes accepted (%zd)", (bpp * 256) << shift, (ssize_t)rr));
			else if (!documented_error(rr))
				violation("param:code", d + fmt(": %zd", (ssize_t)rr));
			if (!untouched(got))
				violation("param:side-effect", d + ": destination written");
			count("invalid_superblocks");
			stenos_set_block_size(x, STENOS_NO_BLOCK_SHIFT);
			shift = STENOS_NO_BLOCK_SHIFT;
			got = run_one(x, c, bpp, bound, rr);
		}
		if (stenos_has_error(rr))
			violation("param:refused", d + fmt(": valid parameters refused: %zd", (ssize_t)rr));
		else {
			// a fresh context given the clamped values
			stenos_context* y = stenos_make_context();
			stenos_set_level(y, level);
			stenos_set_block_size(y, shift);
			size_t r2;
			gen::Bytes want = run_one(y, c, bpp, bound, r2);
			stenos_destroy_context(y);
			if (want != got)
				violation("param:clamp", d + fmt(": %zu bytes differ from the %zd of the clamped parameters", rr, (ssize_t)r2));
			// simple API, same level out of range
			if (shift == STENOS_NO_BLOCK_SHIFT) {
				int v = level == 0 ? -(int)r.below(1000) : level == 9 ? 9 + (int)r.below(100000) : level;
				gen::Bytes o(bound);
				size_t r3 = stenos_compress(c.data.data(), bpp, c.size, o.data(), bound, v);
				if (r3 != rr || memcmp(o.data(), got.data(), rr))
					violation("param:simple-api", d + fmt(": stenos_compress(level %d) gives %zd", v, (ssize_t)r3));
			}
			gen::Bytes out(c.size);
			size_t ds = stenos_decompress_generic(x, got.data(), bpp, rr, out.data(), c.size);
			if (ds != c.size || out != c.data)
				violation("param:decompress", d + fmt(": %zd", (ssize_t)ds));
			count("valid_compressions");
		}
		evaluated(hcomb(hcomb(fnv(h.data(), h.size()), rr), hcomb(bpp, c.size)));
		if (i < 4)
			sample(d + fmt(" -> %zd", (ssize_t)rr));

		// empty input and null buffers
		for (int k = 0; k < 2; ++k) {
			uint8_t o[32];
			memset(o, 0x5A, sizeof o);
			stenos_set_max_nanoseconds(x, r.chance(1, 3) ? 1000 : 0);
			size_t e = k ? stenos_compress(nullptr, c.bpp, 0, o, 20, level) : stenos_compress_generic(x, nullptr, c.bpp, 0, o, 20);
			if (stenos_has_error(e) || e > 20 || e > stenos_bound(0))
				violation("param:empty", d + fmt(": empty input: %zd", (ssize_t)e));
			else {
				stenos_info info = { 99, 0 };
				size_t hh = stenos_get_info(o, c.bpp, e, &info);
				if (stenos_has_error(hh) || info.decompressed_size)
					violation("param:empty", d + ": information of an empty frame");
				for (int q = 0; q < 2; ++q) {
					size_t ds = q ? stenos_decompress(o, c.bpp, e, nullptr, 0) : stenos_decompress_generic(x, o, c.bpp, e, nullptr, 0);
					if (ds != 0)
						violation("param:empty", d + fmt(": empty frame decompressed to %zd", (ssize_t)ds));
				}
			}
			for (size_t n : { (size_t)0, (size_t)1, (size_t)7 }) {
				size_t e2 = stenos_compress_generic(x, nullptr, c.bpp, 0, n ? o : nullptr, n);
				if (!stenos_has_error(e2) || !documented_error(e2))
					violation("param:no-room", d + fmt(": empty input in %zu bytes: %zd", n, (ssize_t)e2));
				size_t e3 = stenos_decompress_generic(x, n ? o : nullptr, c.bpp, n, nullptr, 0);
				if (!stenos_has_error(e3) || !documented_error(e3))
					violation("param:no-input", d + fmt(": frame of %zu bytes: %zd", n, (ssize_t)e3));
			}
			count("empty_inputs");
		}
		stenos_destroy_context(x);
		stenos_reset_context(nullptr);
		stenos_destroy_context(nullptr);

		// results and errors are disjoint
		static const size_t codes[] = { STENOS_ERROR_UNDEFINED, STENOS_ERROR_SRC_OVERFLOW, STENOS_ERROR_ALLOC, STENOS_ERROR_INVALID_INPUT, STENOS_ERROR_INVALID_INSTRUCTION_SET, STENOS_ERROR_DST_OVERFLOW, STENOS_ERROR_INVALID_BYTESOFTYPE, STENOS_ERROR_ZSTD_INTERNAL, STENOS_ERROR_INVALID_PARAMETER };
		for (size_t e : codes)
			if (!stenos_has_error(e))
				violation("param:has-error", fmt("error code %zd is not an error", (ssize_t)e));
		for (int k = 0; k < 20; ++k) {
			size_t v = r.u64() >> (1 + r.below(63));
			if (k == 0)
				v = 0;
			if (k == 1)
				v = (size_t)1 << 56;
			if (k == 2)
				v = (size_t)0 - 1000 - r.below(1u << 20);
			if (stenos_has_error(v))
				violation("param:has-error", fmt("result %zu is taken for an error", v));
			size_t n = v >> 8;
			size_t b = stenos_bound(n);
			if (stenos_has_error(b) || b < n + 12 || b > n + n / 1000 + 64 || b != stenos::compress_bound(n))
				violation("param:bound", fmt("bound of %zu bytes: %zu", n, b));
		}
	});
}
