// Frame construction and mutation for the hostile-input monitors.
#pragma once
#include "gen.hpp"
#include "refdec.hpp"
#include <stenos/stenos.h>

namespace mut {
using vh::Rng;
using gen::Bytes;

inline Bytes compress(const Bytes& d, size_t bpp, int level, size_t shift = STENOS_NO_BLOCK_SHIFT, int threads = 1)
{
	stenos_context* x = stenos_make_context();
	stenos_set_level(x, level);
	stenos_set_threads(x, threads);
	size_t bound = stenos_bound(d.size());
	if (shift != STENOS_NO_BLOCK_SHIFT) {
		size_t sb = (bpp * 256) << shift;
		if (sb < STENOS_MAX_BLOCK_BYTES) {
			stenos_set_block_size(x, shift);
			bound = 12 + d.size() + 4 * (d.size() / sb + 1);
		}
	}
	Bytes o(bound);
	size_t r = stenos_compress_generic(x, d.data(), bpp, d.size(), o.data(), bound);
	stenos_destroy_context(x);
	if (stenos_has_error(r))
		return Bytes();
	o.resize(r);
	return o;
}

inline std::vector<size_t> superblock_offsets(const Bytes& f, size_t bpp)
{
	std::vector<size_t> v;
	ref::Frame fr;
	ref::parse(f.data(), f.size(), bpp, fr);
	for (auto& s : fr.sbs)
		v.push_back(s.off - 4);
	return v;
}
inline void put24(uint8_t* p, size_t v)
{
	p[0] = (uint8_t)v;
	p[1] = (uint8_t)(v >> 8);
	p[2] = (uint8_t)(v >> 16);
}

// A random payload shaped like the block format, mostly valid.
inline Bytes forge_block_payload(Rng& r, size_t bpp, size_t dsize, bool exact)
{
	Bytes o;
	size_t nb = dsize / (bpp * 256);
	auto row = [&](unsigned h) {
		size_t n;
		if (h == 6 || h == 7) {
			unsigned m = r.u32() & 0xFFFF;
			if (r.chance(1, 2))
				m |= r.u32() & 0xFFFF;
			o.push_back((uint8_t)m);
			o.push_back((uint8_t)(m >> 8));
			n = 16 - __builtin_popcount(m & 0xFFFF);
		}
		else if (h == 15)
			n = 16;
		else
			n = 2 * (h & 7);
		for (size_t i = 0; i < n; ++i)
			o.push_back(r.u8());
	};
	auto plane = [&](unsigned t, unsigned lines) {
		if (t == 0)
			o.push_back(r.u8());
		else if (t == 1)
			for (int i = 0; i < 256; ++i)
				o.push_back(r.u8());
		else {
			uint8_t h[16] = {};
			int fix = r.chance(1, 4) ? (int)r.below(16) : -1;
			for (unsigned i = 0; i < lines; ++i)
				h[i] = fix >= 0 ? (uint8_t)fix : (uint8_t)r.below(16);
			for (unsigned i = 0; i < lines; i += 2)
				o.push_back((uint8_t)(h[i] | (i + 1 < lines ? h[i + 1] : 0) << 4));
			if (t == 3)
				row(7);
			else
				for (unsigned i = 0; i < lines; ++i)
					if (h[i] != 6 && h[i] != 7 && h[i] != 15)
						o.push_back(r.u8());
			for (unsigned i = 0; i < lines; ++i)
				row(h[i]);
		}
	};
	auto types = [&](bool partial, std::vector<unsigned>& t) {
		unsigned fav = (unsigned)r.below(4);
		for (size_t i = 0; i < bpp; ++i) {
			t.push_back(r.chance(1, 2) ? fav : (unsigned)r.below(4));
			if (partial && (t.back() & 1))
				t.back() ^= r.chance(1, 30) ? 0u : 1u;
			if (r.chance(1, 400))
				t.back() = (unsigned)r.below(16);
		}
		for (size_t i = 0; i < bpp; i += 2)
			o.push_back((uint8_t)(t[i] | (i + 1 < bpp ? t[i + 1] : 0) << 4));
	};
	for (size_t b = 0; b < nb; ++b) {
		unsigned w = (unsigned)r.below(10);
		if (w == 0) {
			o.push_back(252);
			for (size_t i = 0; i < bpp * 256; ++i)
				o.push_back(r.u8());
		}
		else if (w <= 2) {
			o.push_back(253);
			size_t unit = bpp % 8 == 0 ? 8 : (bpp <= 2 || bpp % 4 == 0) ? 4 : bpp % 6 == 0 ? 6 : bpp % 3 == 0 ? 3 : 8;
			size_t units = bpp * 256 / unit;
			for (size_t g = 0; g < units; g += 8) {
				unsigned a = r.chance(1, 6) ? 0 : (unsigned)r.below(256);
				o.push_back((uint8_t)a);
				for (unsigned k = 0; k < 8; ++k)
					if (a >> k & 1) {
						size_t u = g + k;
						size_t off = 1 + r.below(u ? u : 1);
						if (r.chance(1, 300))
							off = r.below(32768);
						if (off > 32767)
							off = 1;
						if (off < 128 && r.chance(7, 8))
							o.push_back((uint8_t)off);
						else {
							o.push_back((uint8_t)(off & 127) | 128);
							o.push_back((uint8_t)(off >> 7));
						}
					}
					else
						for (size_t q = 0; q < unit; ++q)
							o.push_back(r.u8());
			}
		}
		else {
			std::vector<unsigned> t;
			types(false, t);
			for (size_t i = 0; i < bpp; ++i)
				plane(t[i] & 3, 16);
		}
	}
	size_t rem = dsize - nb * bpp * 256;
	if (rem) {
		o.push_back(r.chance(1, 50) ? r.u8() : 254);
		unsigned lines = (unsigned)(rem / (16 * bpp));
		if (lines) {
			std::vector<unsigned> t;
			types(true, t);
			for (size_t i = 0; i < bpp; ++i)
				plane(t[i] & 2, lines);
		}
		for (size_t i = lines * 16 * bpp; i < rem; ++i)
			o.push_back(r.u8());
	}
	if (!exact) {
		if (r.chance(1, 2) && !o.empty())
			o.resize(o.size() - 1 - r.below(o.size() < 40 ? o.size() : 40));
		else
			for (size_t k = r.range(1, 30); k; --k)
				o.push_back(r.u8());
	}
	return o;
}

// A forged frame announcing `size` bytes in superblocks of `sb` bytes.
inline Bytes forge(Rng& r, size_t bpp, size_t& size)
{
	Bytes f;
	size_t sb = bpp * 256 * r.range(1, 4);
	if (r.chance(1, 10))
		sb = 1 + r.below(bpp * 1024);
	size = r.chance(1, 2) ? sb * r.range(1, 5) : 1 + r.below(sb * 4);
	f.push_back(255);
	for (int i = 0; i < 7; ++i)
		f.push_back((uint8_t)(size >> (8 * i)));
	for (int i = 0; i < 4; ++i)
		f.push_back((uint8_t)(sb >> (8 * i)));
	for (size_t left = size; left;) {
		size_t ds = left < sb ? left : sb;
		left -= ds;
		unsigned code = (unsigned)r.range(1, 6);
		if (r.chance(1, 2))
			code = r.chance(1, 2) ? 1 : 5;
		bool ok = !r.chance(1, 12);
		Bytes p;
		if (code == 1)
			p = forge_block_payload(r, bpp, ds, ok);
		else if (code == 6) {
			p.resize(ok ? ds : r.below(ds + 20));
			gen::fill(r, p.data(), p.size(), bpp, (int)r.below(gen::KINDS));
		}
		else {
			Bytes raw;
			if (code == 5)
				raw = forge_block_payload(r, bpp, ds, ok);
			else {
				raw.resize(ok ? ds : r.below(ds + 20));
				gen::fill(r, raw.data(), raw.size(), bpp, (int)r.below(gen::KINDS));
			}
			p.resize(ZSTD_compressBound(raw.size()));
			p.resize(ZSTD_compress(p.data(), p.size(), raw.data(), raw.size(), 1));
		}
		f.push_back((uint8_t)code);
		size_t o = f.size();
		f.resize(o + 3);
		put24(&f[o], p.size());
		f.insert(f.end(), p.begin(), p.end());
	}
	return f;
}

// One mutation; returns its description.
inline std::string mutate(Rng& r, Bytes& f, size_t bpp)
{
	std::vector<size_t> sb = superblock_offsets(f, bpp);
	std::string d;
	unsigned n = 1 + (unsigned)(r.chance(1, 3) ? r.below(4) : 0);
	for (unsigned k = 0; k < n && f.size() > 8; ++k) {
		switch (r.below(14)) {
			case 0: {
				size_t p = r.below(f.size());
				f[p] ^= (uint8_t)(1u << r.below(8));
				d += vh::fmt("flip@%zu ", p);
			} break;
			case 1: {
				size_t p = 8 + r.below(f.size() - 8);
				f[p] = r.u8();
				d += vh::fmt("set@%zu ", p);
			} break;
			case 2: { // header: size
				size_t p = 1 + r.below(7);
				f[p] = r.chance(1, 2) ? (uint8_t)(f[p] + 1 - 2 * r.below(2)) : r.u8();
				d += "size ";
			} break;
			case 3: // shift
				f[0] = r.chance(1, 2) ? (uint8_t)r.below(6) : (r.chance(1, 2) ? 255 : r.u8());
				d += "shift ";
				break;
			case 4:
				if (f[0] == 255 && f.size() > 12) {
					f[8 + r.below(4)] = r.chance(1, 2) ? r.u8() : (uint8_t)r.below(3);
					d += "superblock ";
				}
				break;
			case 5:
				if (!sb.empty()) { // superblock code
					size_t o = sb[r.below(sb.size())];
					if (o < f.size())
						f[o] = (uint8_t)r.below(8);
					d += "code ";
				}
				break;
			case 6:
				if (!sb.empty()) { // compressed size
					size_t o = sb[r.below(sb.size())];
					if (o + 4 <= f.size()) {
						size_t c = f[o + 1] | f[o + 2] << 8 | f[o + 3] << 16;
						c = r.chance(2, 3) ? c + r.below(17) - 8 : r.below(1 << 24);
						put24(&f[o + 1], c & 0xFFFFFF);
					}
					d += "csize ";
				}
				break;
			case 7:
			case 8:
				if (!sb.empty()) { // just after a superblock header
					size_t o = sb[r.below(sb.size())] + 4 + r.below(40);
					if (o < f.size())
						f[o] = r.chance(1, 2) ? (uint8_t)(f[o] ^ (1u << r.below(8))) : r.u8();
					d += "head ";
				}
				break;
			case 9: { // copy a range
				size_t a = r.below(f.size()), b = r.below(f.size()), l = 1 + r.below(32);
				for (size_t q = 0; q < l && a + q < f.size() && b + q < f.size(); ++q)
					f[a + q] = f[b + q];
				d += "copy ";
			} break;
			case 10: { // delete bytes
				size_t a = r.below(f.size()), l = 1 + r.below(8);
				if (l > f.size() - a)
					l = f.size() - a;
				f.erase(f.begin() + a, f.begin() + a + l);
				d += vh::fmt("del@%zu ", a);
			} break;
			case 11: { // insert bytes
				size_t a = r.below(f.size()), l = 1 + r.below(8);
				Bytes x(l);
				for (auto& q : x)
					q = r.u8();
				f.insert(f.begin() + a, x.begin(), x.end());
				d += vh::fmt("ins@%zu ", a);
			} break;
			case 12: { // a run of extreme bytes
				size_t a = r.below(f.size()), l = 1 + r.below(40);
				uint8_t v = r.chance(1, 2) ? 255 : (r.chance(1, 2) ? 0 : r.u8());
				for (size_t q = a; q < a + l && q < f.size(); ++q)
					f[q] = v;
				d += vh::fmt("run@%zu ", a);
			} break;
			default: // cut the end and adapt the last superblock size
				if (!sb.empty()) {
					size_t o = sb.back();
					if (f.size() > o + 5) {
						size_t cut = 1 + r.below(f.size() - o - 4 < 64 ? f.size() - o - 4 : 64);
						f.resize(f.size() - cut);
						put24(&f[o + 1], f.size() - o - 4);
					}
					d += "tail ";
				}
		}
	}
	return d.empty() ? "none" : d;
}
} // namespace mut
