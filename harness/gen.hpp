// Input generators: contents that drive every superblock method, plane type and row coding, and sizes around every boundary.
#pragma once
#include "vh.hpp"
#include <cmath>

namespace gen {
using vh::Rng;
typedef std::vector<uint8_t> Bytes;

static const char* const kind_names[] = { "random", "constant", "zero", "ramp", "walk", "planes", "float", "repeat", "text", "rows", "sparse", "lz", "bounds", "almost", "mixture", "runs" };
enum { KINDS = 16 };

inline size_t base_superblock(size_t bpp)
{
	size_t bs = bpp * 256;
	return bs > 131072 ? bs : (131072 / bs) * bs;
}

// One row of 16 values of a byte plane, chosen to be best coded by a given row coding.
inline void row16(Rng& r, uint8_t* o, int style, uint8_t& prev)
{
	switch (style) {
		case 0: { // min + k bits
			unsigned k = (unsigned)r.below(7);
			uint8_t min = r.u8();
			for (int i = 0; i < 16; ++i)
				o[i] = (uint8_t)(min + (k ? r.below(1u << k) : 0));
		} break;
		case 1: { // delta with k bits
			unsigned k = (unsigned)r.below(7);
			uint8_t min = r.u8(), p = prev;
			for (int i = 0; i < 16; ++i)
				p = o[i] = (uint8_t)(p + min + (k ? r.below(1u << k) : 0));
		} break;
		case 2: { // RLE with random mask
			unsigned m = r.u32();
			if (r.chance(1, 2))
				m |= r.u32();
			if (r.chance(1, 3))
				m |= r.u32();
			uint8_t p = prev;
			for (int i = 0; i < 16; ++i) {
				if (!(m >> i & 1))
					p = r.u8();
				o[i] = p;
			}
		} break;
		case 3: { // RLE on deltas
			unsigned m = r.u32() | r.u32();
			if (r.chance(1, 2))
				m |= r.u32();
			uint8_t p = prev, d = 0;
			for (int i = 0; i < 16; ++i) {
				if (!(m >> i & 1))
					d = r.u8();
				p = o[i] = (uint8_t)(p + d);
			}
		} break;
		case 4:
			for (int i = 0; i < 16; ++i)
				o[i] = r.u8();
			break;
		case 5: // same as previous value
			memset(o, prev, 16);
			break;
		case 6: // wrap-around
			for (int i = 0; i < 16; ++i)
				o[i] = (uint8_t)(250 + r.below(12));
			break;
		default: { // constant
			uint8_t v = r.u8();
			memset(o, v, 16);
		}
	}
	prev = o[15];
}

inline void fill_rows(Rng& r, uint8_t* d, size_t n, size_t bpp, bool per_plane)
{
	// element-wise: plane p of element i is d[i*bpp+p]
	size_t elems = n / bpp;
	std::vector<int> pst(bpp);
	for (size_t p = 0; p < bpp; ++p)
		pst[p] = (int)r.below(9);
	int dom = (int)r.below(9);
	for (size_t p = 0; p < bpp; ++p) {
		uint8_t prev = 0;
		for (size_t i = 0; i < elems; i += 16) {
			uint8_t o[16];
			if (i % 256 == 0 && r.chance(1, 8))
				pst[p] = (int)r.below(9);
			int style = per_plane ? pst[p] : (r.chance(1, 3) ? dom : (int)r.below(8));
			if (style == 8)
				style = (int)r.below(8);
			row16(r, o, style, prev);
			for (size_t k = 0; k < 16 && i + k < elems; ++k)
				d[(i + k) * bpp + p] = o[k];
		}
	}
	for (size_t i = elems * bpp; i < n; ++i)
		d[i] = r.u8();
}

inline void fill_lz(Rng& r, uint8_t* d, size_t n, size_t bpp)
{
	size_t unit = bpp % 8 == 0 ? 8 : (bpp <= 2 || bpp % 4 == 0) ? 4 : bpp % 6 == 0 ? 6 : bpp % 3 == 0 ? 3 : bpp;
	unsigned reuse = (unsigned)r.range(40, 99);
	size_t far = r.chance(1, 2) ? 200 : 4000;
	for (size_t i = 0; i < n; i += unit) {
		size_t m = n - i < unit ? n - i : unit;
		size_t u = i / unit;
		if (u && r.below(100) < reuse) {
			size_t off = 1 + r.below(u < far ? u : far);
			if (r.chance(1, 4))
				off = 1 + r.below(u < 4 ? u : 4);
			memmove(d + i, d + i - off * unit, m);
		}
		else
			for (size_t k = 0; k < m; ++k)
				d[i + k] = r.u8();
	}
}

inline void fill(Rng& r, uint8_t* d, size_t n, size_t bpp, int kind)
{
	if (!n)
		return;
	switch (kind) {
		case 0: {
			for (size_t i = 0; i < n; ++i)
				d[i] = r.u8();
		} break;
		case 1:
			memset(d, r.u8(), n);
			break;
		case 2:
			memset(d, 0, n);
			break;
		case 3: { // integer ramp with step and noise
			uint64_t v = r.u64() >> r.below(64), step = r.below(1000) >> r.below(10);
			size_t w = bpp < 8 ? bpp : (r.chance(1, 2) ? 8 : 4);
			unsigned noise = (unsigned)r.below(3);
			size_t e = 0;
			for (size_t i = 0; i < n; i += w, ++e) {
				uint64_t x = v + e * step + (noise ? r.below(1u << (noise * 3)) : 0);
				for (size_t k = 0; k < w && i + k < n; ++k)
					d[i + k] = (uint8_t)(x >> (8 * k));
			}
		} break;
		case 4: { // random walk
			size_t w = bpp < 8 ? bpp : (r.chance(1, 2) ? 8 : 4);
			uint64_t x = r.u64() >> r.below(60);
			unsigned amp = (unsigned)r.range(1, 14);
			for (size_t i = 0; i < n; i += w) {
				x += r.below(1u << amp) - (1u << amp) / 2;
				for (size_t k = 0; k < w && i + k < n; ++k)
					d[i + k] = (uint8_t)(x >> (8 * k));
			}
		} break;
		case 5:
			fill_rows(r, d, n, bpp, true);
			break;
		case 6: { // floats
			double a = r.unit() * 1000, f = r.unit() * 0.1, ph = r.unit();
			unsigned round = (unsigned)r.below(3);
			size_t w = bpp == 4 || (bpp % 8 && bpp % 4 == 0) ? 4 : 8;
			size_t e = 0;
			for (size_t i = 0; i < n; i += w, ++e) {
				double v = a * std::sin(ph + f * (double)e);
				if (round)
					v = std::floor(v * round) / round;
				float fv = (float)v;
				uint8_t b[8];
				memcpy(b, w == 4 ? (void*)&fv : (void*)&v, w);
				for (size_t k = 0; k < w && i + k < n; ++k)
					d[i + k] = b[k];
			}
		} break;
		case 7: { // repeated pattern
			size_t per = r.chance(1, 2) ? bpp * r.range(1, 300) : r.range(1, 3000);
			for (size_t i = 0; i < n; ++i)
				d[i] = i < per ? r.u8() : d[i - per];
			size_t flips = r.below(n / 500 + 1);
			for (size_t i = 0; i < flips; ++i)
				d[r.below(n)] ^= (uint8_t)(1u << r.below(8));
		} break;
		case 8: { // text
			static const char* words[] = { "the ", "compressed ", "of ", "and ", "block ", "value=", "0, ", "1.50;", "\n", "stenos ", "int ", "x", "yz ", "2024-01-" };
			size_t i = 0;
			while (i < n) {
				const char* w = words[r.below(14)];
				while (*w && i < n)
					d[i++] = (uint8_t)*w++;
				if (i < n && r.chance(1, 6))
					d[i++] = (uint8_t)('a' + r.below(26));
			}
		} break;
		case 9:
			fill_rows(r, d, n, bpp, false);
			break;
		case 10: { // sparse
			memset(d, r.chance(1, 2) ? 0 : r.u8(), n);
			size_t k = r.below(n / (1 + r.below(200)) + 1);
			for (size_t i = 0; i < k; ++i)
				d[r.below(n)] = r.u8();
		} break;
		case 11:
			fill_lz(r, d, n, bpp);
			break;
		case 12: { // extreme values
			static const uint8_t ext[] = { 0, 255, 1, 254, 127, 128 };
			unsigned m = (unsigned)r.range(2, 6);
			unsigned run = (unsigned)r.range(1, 40);
			uint8_t v = 0;
			for (size_t i = 0; i < n; ++i) {
				if (r.below(run) == 0)
					v = ext[r.below(m)];
				d[i] = v;
			}
		} break;
		case 13: { // nearly incompressible: random with a few short compressible stretches
			for (size_t i = 0; i < n; ++i)
				d[i] = r.u8();
			size_t k = r.below(4);
			for (size_t i = 0; i < k; ++i) {
				size_t len = r.below(200) + 1, at = r.below(n);
				if (at + len > n)
					len = n - at;
				memset(d + at, r.u8(), len);
			}
		} break;
		case 14: { // segments of different kinds
			size_t i = 0;
			while (i < n) {
				size_t len = r.chance(1, 2) ? bpp * 256 * r.range(1, 3) : (r.chance(1, 2) ? base_superblock(bpp) : r.range(1, 5000));
				if (len > n - i)
					len = n - i;
				int k = (int)r.below(14);
				fill(r, d + i, len, bpp, k);
				i += len;
			}
		} break;
		default: { // runs of elements
			size_t i = 0;
			while (i < n) {
				size_t len = 1 + r.below(r.chance(1, 4) ? 600 : 20);
				uint8_t e[16];
				for (int k = 0; k < 16; ++k)
					e[k] = r.u8();
				for (size_t q = 0; q < len && i < n; ++q)
					for (size_t k = 0; k < bpp && i < n; ++k)
						d[i++] = e[k & 15];
			}
		}
	}
}

inline size_t pick_bpp(Rng& r)
{
	static const size_t common[] = { 1, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 27, 30, 31, 32, 33, 36, 40, 47, 48, 56, 63, 64, 65, 72, 96, 100 };
	static const size_t big[] = { 127, 128, 129, 192, 200, 255, 256, 257, 258, 300, 384, 511, 512, 513, 520, 600, 1000, 1024, 2047, 4096 };
	switch (r.below(10)) {
		case 0:
		case 1:
		case 2:
		case 3: return 1 + r.below(16);
		case 4: return 1 + r.below(70);
		case 5: return big[r.below(sizeof(big) / sizeof(big[0]))];
		default: return common[r.below(sizeof(common) / sizeof(common[0]))];
	}
}

// A size in bytes around one of the structural boundaries, at most about `cap`.
inline size_t pick_size(Rng& r, size_t bpp, size_t cap)
{
	size_t bs = bpp * 256, n;
	switch (r.below(12)) {
		case 0: n = r.below(300); break;
		case 1: n = r.below(64) * bpp; break;
		case 2: n = 96 + r.below(64); break;
		case 3: n = bs * r.range(1, 4); break;
		case 4: n = bs * r.range(0, 4) + 16 * bpp * r.range(0, 15); break;
		case 5: n = bs * r.range(0, 4) + 16 * bpp * r.range(0, 15) + r.below(16) * bpp; break;
		case 6: n = bs * r.range(0, 6) + r.below(bs); break;
		case 7: n = bs * r.range(1, 3) + (r.chance(1, 2) ? r.below(bpp + 1) : (size_t)-(int64_t)r.below(bpp + 1)); break;
		case 8: n = base_superblock(bpp) * r.range(1, 4); break;
		case 9: n = base_superblock(bpp) * r.range(1, 3) + (r.chance(1, 2) ? r.below(600) : (size_t)-(int64_t)r.below(600)); break;
		case 10: n = r.below(200000); break;
		default: n = r.below(20000); break;
	}
	if (n > cap) {
		n %= cap;
		if (r.chance(1, 2) && n >= bs)
			n -= n % bs;
	}
	return n;
}

struct Case {
	size_t bpp, size;
	int kind, level;
	Bytes data;
	std::string str() const { return vh::fmt("bpp=%zu size=%zu kind=%s level=%d", bpp, size, kind_names[kind], level); }
};
inline int pick_level(Rng& r, size_t size)
{
	int l = (int)r.below(10);
	if (size > 300000 && l > 6 && r.chance(3, 4))
		l = (int)r.below(6);
	if (r.chance(1, 4))
		l = (int)r.range(1, 3);
	return l;
}
inline Case make(Rng& r, size_t cap = 400000)
{
	Case c;
	c.bpp = pick_bpp(r);
	c.size = pick_size(r, c.bpp, cap);
	if (r.chance(1, 3)) // whole elements
		c.size -= c.size % c.bpp;
	c.kind = (int)r.below(KINDS);
	c.level = pick_level(r, c.size);
	c.data.resize(c.size);
	fill(r, c.data.data(), c.size, c.bpp, c.kind);
	return c;
}
} // namespace gen
