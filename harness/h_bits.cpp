// P30: the bit and byte utilities of stenos/bits.hpp against their arithmetic definition.
#include "vh.hpp"
#include <stenos/bits.hpp>
using namespace vh;

namespace ref {
static unsigned pop(uint64_t v)
{
	unsigned n = 0;
	for (int i = 0; i < 64; ++i)
		n += (unsigned)(v >> i & 1);
	return n;
}
static unsigned low(uint64_t v)
{
	unsigned i = 0;
	while (!(v >> i & 1))
		++i;
	return i;
}
static unsigned high(uint64_t v)
{
	unsigned i = 63;
	while (!(v >> i & 1))
		--i;
	return i;
}
static uint64_t bytes(const uint8_t* p, int n, bool big)
{
	uint64_t r = 0;
	for (int i = 0; i < n; ++i)
		r |= (uint64_t)p[i] << 8 * (big ? n - 1 - i : i);
	return r;
}
} // namespace ref

static uint64_t value(Rng& r)
{
	uint64_t v = r.u64();
	switch (r.below(7)) {
		case 0: return v;
		case 1: return 1ull << (v & 63);
		case 2: return ~0ull << (v & 63);
		case 3: return ~0ull >> (v & 63);
		case 4: return v & r.u64() & r.u64() & r.u64();
		case 5: return (1ull << (v & 63)) | (1ull << (v >> 8 & 63));
		default: return v >> (v & 63);
	}
}

static void eq(const char* what, uint64_t arg, uint64_t got, uint64_t want)
{
	if (got != want)
		violation("bits:value", fmt("%s(0x%llx) = 0x%llx, expected 0x%llx", what, (unsigned long long)arg, (unsigned long long)got, (unsigned long long)want));
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		// every 8 and 16 bits value in the first cases, chosen values of 32 and 64 bits in all of them
		if (i < 64) {
			for (unsigned v = (unsigned)i * 1024; v < (unsigned)(i + 1) * 1024; ++v) {
				eq("popcnt16", v, stenos::popcnt16((unsigned short)v), ref::pop(v));
				eq("byte_swap_16", v, stenos::byte_swap_16((uint16_t)v), (v >> 8 | v << 8) & 0xFFFF);
				if (v < 256) {
					eq("popcnt8", v, stenos::popcnt8((unsigned char)v), ref::pop(v));
					eq("bit_scan_forward_8", v, stenos::bit_scan_forward_8((uint8_t)v), v ? ref::low(v) : 8);
					eq("bit_scan_reverse_8", v, stenos::bit_scan_reverse_8((uint8_t)v), v ? ref::high(v) : 8);
				}
			}
			count("values_of_16_bits", 1024);
		}
		for (int k = 0; k < 400; ++k) {
			uint64_t v = value(r), w = value(r);
			uint32_t h = (uint32_t)(k & 1 ? v : v >> 32);
			eq("popcnt64", v, stenos::popcnt64(v), ref::pop(v));
			eq("popcnt32", h, stenos::popcnt32(h), ref::pop(h));
			eq("detail::popcount64", v, stenos::detail::popcount64(v), ref::pop(v));
			eq("detail::popcount32", h, stenos::detail::popcount32(h), ref::pop(h));
			if (v) {
				eq("bit_scan_forward_64", v, stenos::bit_scan_forward_64(v), ref::low(v));
				eq("bit_scan_reverse_64", v, stenos::bit_scan_reverse_64(v), ref::high(v));
				eq("bit_scan_forward", v, stenos::bit_scan_forward((size_t)v), ref::low(v));
				eq("bit_scan_reverse", v, stenos::bit_scan_reverse((size_t)v), ref::high(v));
			}
			if (h) {
				eq("bit_scan_forward_32", h, stenos::bit_scan_forward_32(h), ref::low(h));
				eq("bit_scan_reverse_32", h, stenos::bit_scan_reverse_32(h), ref::high(h));
			}
			uint8_t le[8];
			for (int b = 0; b < 8; ++b)
				le[b] = (uint8_t)(v >> 8 * b);
			eq("byte_swap_64", v, stenos::byte_swap_64(v), ref::bytes(le, 8, true));
			eq("byte_swap_32", v & 0xFFFFFFFF, stenos::byte_swap_32((uint32_t)v), ref::bytes(le, 4, true));
			uint64_t lo = 0, hi = 0;
			stenos::umul128(v, w, &lo, &hi);
			unsigned __int128 m = (unsigned __int128)v * w;
			eq("umul128 (low)", v, lo, (uint64_t)m);
			eq("umul128 (high)", v, hi, (uint64_t)(m >> 64));
			// any alignment, exactly as many bytes as announced
			uint8_t buf[40], q[40];
			for (auto& x : buf)
				x = r.u8();
			size_t o = r.below(16);
			memcpy(q, buf, sizeof q);
			const uint8_t* p = buf + o;
			eq("read_LE_16", o, stenos::read_LE_16(p), ref::bytes(p, 2, false));
			eq("read_LE_32", o, stenos::read_LE_32(p), ref::bytes(p, 4, false));
			eq("read_LE_64", o, stenos::read_LE_64(p), ref::bytes(p, 8, false));
			eq("read_BE_16", o, stenos::read_BE_16(p), ref::bytes(p, 2, true));
			eq("read_BE_32", o, stenos::read_BE_32(p), ref::bytes(p, 4, true));
			eq("read_BE_64", o, stenos::read_BE_64(p), ref::bytes(p, 8, true));
			eq("read_16", o, stenos::read_16(p), ref::bytes(p, 2, false));
			eq("read_32", o, stenos::read_32(p), ref::bytes(p, 4, false));
			eq("read_64", o, stenos::read_64(p), ref::bytes(p, 8, false));
			eq("read_ptr_t", o, stenos::read_ptr_t(p), ref::bytes(p, (int)sizeof(void*), false));
			eq("read_size_t", o, stenos::read_size_t(p), ref::bytes(p, (int)sizeof(size_t), false));
			eq("read_LE_size_t", o, stenos::read_LE_size_t(p), ref::bytes(p, (int)sizeof(size_t), false));
			eq("read_BE_size_t", o, stenos::read_BE_size_t(p), ref::bytes(p, (int)sizeof(size_t), true));
			int n = 0;
			bool big = false;
			switch (r.below(5)) {
				case 0: stenos::write_LE_16(q + o, (uint16_t)v), n = 2; break;
				case 1: stenos::write_LE_32(q + o, (uint32_t)v), n = 4; break;
				case 2: stenos::write_LE_64(q + o, v), n = 8; break;
				case 3: stenos::write_BE_64(q + o, v), n = 8, big = true; break;
				default: stenos::write_size_t(q + o, (size_t)v), n = (int)sizeof(size_t);
			}
			eq("write", o, ref::bytes(q + o, n, big), n == 8 ? v : v & ((1ull << 8 * n) - 1));
			if (memcmp(q, buf, o) || memcmp(q + o + n, buf + o + n, sizeof buf - o - (size_t)n))
				violation("bits:overrun", fmt("a write of %d bytes changes its neighbours", n));
		}
		count("values", 400);
		// aligned blocks: aligned, as large as asked (written entirely, ASan watching), independent, released
		std::vector<std::pair<uint8_t*, size_t>> held;
		for (int k = 0; k < 12; ++k) {
			size_t al = sizeof(void*) << r.below(10), n = r.chance(1, 4) ? r.below(4) : r.below(3000);
			bool hand = r.chance(1, 2);
			uint8_t* p = (uint8_t*)(hand ? stenos::detail::handmade_aligned_malloc(n, al) : stenos::aligned_malloc(n, al));
			count("aligned_blocks");
			if (!p ? n != 0 : (uintptr_t)p % al != 0)
				violation("bits:alignment", fmt("a block of %zu bytes aligned on %zu: %p", n, al, (void*)p));
			if (p)
				memset(p, 0x40 + k, n);
			if (hand) {
				for (size_t b = 0; p && b < n; ++b)
					if (p[b] != 0x40 + k)
						violation("bits:alignment", "content of a block");
				stenos::detail::handmade_aligned_free(p);
			}
			else
				held.emplace_back(p, n);
		}
		for (size_t k = 0; k < held.size(); ++k) {
			for (size_t b = 1; held[k].first && b < held[k].second; ++b)
				if (held[k].first[b] != held[k].first[0])
					violation("bits:alignment", "blocks overlap");
			stenos::aligned_free(held[k].first);
		}
		stenos::aligned_free(nullptr);
		stenos::detail::handmade_aligned_free(nullptr);
		if (stenos::detail::handmade_aligned_malloc(SIZE_MAX - r.below(20), 64))
			violation("bits:alignment", "a block of nearly SIZE_MAX bytes is obtained");
		evaluated(hcomb(i, r.u64()));
		if (i < 2)
			sample(fmt("case %llu: 400 values of each function, 12 aligned blocks", (unsigned long long)i));
	});
}
