// Independent reference decoder of the stenos frame format.
//
// Written from the layout of the format (README/doc and the pinned decoder's behaviour), sharing no code with /repo: it is
// the oracle of P25 (format stability) and the source of the coverage tallies (which superblock codes, plane types, row
// codings the monitored executions really produced).
#pragma once
#include <zstd.h>
#include <stdint.h>
#include <string.h>
#include <vector>
#include <string>
#include <stddef.h>

namespace ref {
typedef std::vector<uint8_t> Bytes;

struct Stats {
	uint64_t code[8] = { 0 };    // superblock codes
	uint64_t plane[4] = { 0 };   // plane types of full blocks
	uint64_t row[16] = { 0 };    // row headers (full blocks)
	uint64_t prow[16] = { 0 };   // row headers (partial blocks)
	uint64_t rle_min = 0;        // planes with RLE-coded mins
	uint64_t copy_block = 0, lz_block = 0, partial = 0, partial_raw = 0, partial_same = 0;
	uint64_t lz_raw_group = 0, lz_near = 0, lz_far = 0;
	void add(const Stats& o)
	{
		const uint64_t* s = (const uint64_t*)&o;
		uint64_t* d = (uint64_t*)this;
		for (size_t i = 0; i < sizeof(Stats) / 8; ++i)
			d[i] += s[i];
	}
};

struct Rd {
	const uint8_t *p, *e;
	bool ok = true;
	Rd(const uint8_t* a, const uint8_t* b) : p(a), e(b) {}
	uint8_t u8()
	{
		if (p >= e) {
			ok = false;
			return 0;
		}
		return *p++;
	}
	const uint8_t* take(size_t n)
	{
		if ((size_t)(e - p) < n) {
			ok = false;
			return nullptr;
		}
		const uint8_t* r = p;
		p += n;
		return r;
	}
};

inline bool rle16(Rd& r, uint8_t* out, uint8_t prev)
{
	unsigned m = r.u8();
	m |= (unsigned)r.u8() << 8;
	for (int i = 0; i < 16; ++i) {
		if (m >> i & 1)
			out[i] = prev;
		else
			out[i] = r.u8();
		prev = out[i];
	}
	return r.ok;
}

inline bool bits16(Rd& r, unsigned h, uint8_t* out)
{
	// two groups of 8 values of h bits, little endian, each group takes h bytes
	for (int g = 0; g < 2; ++g) {
		const uint8_t* s = r.take(h);
		if (!s)
			return false;
		uint64_t w = 0;
		for (unsigned i = 0; i < h; ++i)
			w |= (uint64_t)s[i] << (8 * i);
		for (int i = 0; i < 8; ++i)
			out[g * 8 + i] = h ? (uint8_t)((w >> (h * i)) & ((1u << h) - 1)) : 0;
	}
	return true;
}

inline bool row(Rd& r, unsigned h, uint8_t min, uint8_t prev, uint8_t* out)
{
	if (h <= 5) {
		if (!bits16(r, h, out))
			return false;
		for (int i = 0; i < 16; ++i)
			out[i] = (uint8_t)(out[i] + min);
		return true;
	}
	if (h >= 8 && h <= 14) {
		if (!bits16(r, h - 8, out))
			return false;
		for (int i = 0; i < 16; ++i)
			prev = out[i] = (uint8_t)(prev + min + out[i]);
		return true;
	}
	if (h == 7)
		return rle16(r, out, prev);
	if (h == 6) {
		if (!rle16(r, out, 0))
			return false;
		for (int i = 0; i < 16; ++i)
			prev = out[i] = (uint8_t)(prev + out[i]);
		return true;
	}
	const uint8_t* s = r.take(16);
	if (!s)
		return false;
	memcpy(out, s, 16);
	return true;
}

// One byte plane of `lines` rows of 16 values, written to out[line*16+i]
inline bool plane(Rd& r, unsigned type, unsigned lines, uint8_t* out, Stats* st, bool partial)
{
	if (!partial && st && type < 4)
		st->plane[type]++;
	if (type == 0) {
		uint8_t v = r.u8();
		memset(out, v, lines * 16);
		if (partial && st)
			st->partial_same++;
		return r.ok;
	}
	if (type == 1 && !partial) {
		const uint8_t* s = r.take(256);
		if (!s)
			return false;
		memcpy(out, s, 256);
		return true;
	}
	if (type == 2 || (type == 3 && !partial)) {
		uint8_t hd[16], mins[16];
		const uint8_t* s = r.take((lines + 1) / 2);
		if (!s)
			return false;
		for (unsigned i = 0; i < lines; ++i)
			hd[i] = (s[i / 2] >> (4 * (i & 1))) & 15;
		if (type == 3) {
			if (!rle16(r, mins, 0))
				return false;
			if (st)
				st->rle_min++;
		}
		else
			for (unsigned i = 0; i < lines; ++i)
				if (hd[i] != 6 && hd[i] != 7 && hd[i] != 15)
					mins[i] = r.u8();
				else
					mins[i] = 0;
		for (unsigned i = 0; i < lines; ++i) {
			if (st)
				(partial ? st->prow : st->row)[hd[i]]++;
			if (!row(r, hd[i], mins[i], i ? out[i * 16 - 1] : 0, out + i * 16) || !r.ok)
				return false;
		}
		return r.ok;
	}
	return false;
}

inline bool lz(Rd& r, size_t bpp, uint8_t* dst, Stats* st)
{
	const size_t unit = bpp % 8 == 0 ? 8 : (bpp <= 2 || bpp % 4 == 0) ? 4 : bpp % 6 == 0 ? 6 : bpp % 3 == 0 ? 3 : 0;
	if (!unit || bpp > 512)
		return false;
	const size_t units = bpp * 256 / unit;
	for (size_t g = 0; g < units; g += 8) {
		unsigned a = r.u8();
		if (!a && st)
			st->lz_raw_group++;
		for (unsigned k = 0; k < 8; ++k) {
			size_t u = g + k;
			if (a >> k & 1) {
				size_t off = r.u8();
				if (off > 127) {
					off = (off & 127) | ((size_t)r.u8() << 7);
					if (st)
						st->lz_far++;
				}
				else if (st)
					st->lz_near++;
				if (!r.ok || off == 0 || off > u)
					return false;
				memcpy(dst + u * unit, dst + (u - off) * unit, unit);
			}
			else {
				const uint8_t* s = r.take(unit);
				if (!s)
					return false;
				memcpy(dst + u * unit, s, unit);
			}
		}
	}
	return r.ok;
}

inline bool block_stream(const uint8_t* src, size_t csize, size_t bpp, uint8_t* dst, size_t dsize, Stats* st, std::string* why)
{
	Rd r(src, src + csize);
	const size_t bs = bpp * 256;
	size_t n = dsize / bs;
	std::vector<uint8_t> pl(256);
	for (size_t b = 0; b < n; ++b, dst += bs) {
		if (r.p >= r.e) {
			*why = "block stream ends early";
			return false;
		}
		if (*r.p == 252) {
			r.u8();
			const uint8_t* s = r.take(bs);
			if (!s) {
				*why = "copy block";
				return false;
			}
			memcpy(dst, s, bs);
			if (st)
				st->copy_block++;
			continue;
		}
		if (*r.p == 253) {
			r.u8();
			if (st)
				st->lz_block++;
			if (!lz(r, bpp, dst, st)) {
				*why = "LZ block";
				return false;
			}
			continue;
		}
		const uint8_t* hd = r.take((bpp + 1) / 2);
		if (!hd) {
			*why = "plane headers";
			return false;
		}
		for (size_t i = 0; i < bpp; ++i) {
			if (!plane(r, (hd[i / 2] >> (4 * (i & 1))) & 15, 16, pl.data(), st, false)) {
				*why = "plane";
				return false;
			}
			for (size_t k = 0; k < 256; ++k)
				dst[k * bpp + i] = pl[k];
		}
	}
	size_t rem = dsize - n * bs;
	if (rem) {
		if (r.u8() != 254) {
			*why = "partial marker";
			return false;
		}
		if (st)
			st->partial++;
		size_t lines = rem / (16 * bpp);
		if (lines) {
			const uint8_t* hd = r.take((bpp + 1) / 2);
			if (!hd) {
				*why = "partial headers";
				return false;
			}
			for (size_t i = 0; i < bpp; ++i) {
				if (!plane(r, (hd[i / 2] >> (4 * (i & 1))) & 15, (unsigned)lines, pl.data(), st, true)) {
					*why = "partial plane";
					return false;
				}
				for (size_t k = 0; k < lines * 16; ++k)
					dst[k * bpp + i] = pl[k];
			}
			dst += lines * 16 * bpp;
			rem -= lines * 16 * bpp;
		}
		if (rem) {
			const uint8_t* s = r.take(rem);
			if (!s) {
				*why = "partial tail";
				return false;
			}
			memcpy(dst, s, rem);
			if (st)
				st->partial_raw++;
		}
	}
	if (r.p != r.e || !r.ok) {
		*why = "block stream size";
		return false;
	}
	return true;
}

inline void untranspose(const uint8_t* s, uint8_t* d, size_t bpp, size_t bytes)
{
	size_t n = bytes / bpp;
	for (size_t j = 0; j < bpp; ++j)
		for (size_t i = 0; i < n; ++i)
			d[i * bpp + j] = s[j * n + i];
	memcpy(d + n * bpp, s + n * bpp, bytes - n * bpp);
}
inline void undelta(const uint8_t* s, uint8_t* d, size_t bytes)
{
	if (bytes <= 2048) {
		uint8_t p = 0;
		for (size_t i = 0; i < bytes; ++i)
			p = d[i] = (uint8_t)(p + s[i]);
		return;
	}
	size_t q = bytes / 4;
	for (int k = 0; k < 4; ++k) {
		uint8_t p = 0;
		for (size_t i = k * q; i < (k + 1) * q; ++i)
			p = d[i] = (uint8_t)(p + s[i]);
	}
	for (size_t i = 4 * q; i < bytes; ++i)
		d[i] = (uint8_t)(d[i - 1] + s[i]);
}

struct Frame {
	uint64_t size = 0;
	size_t superblock = 0;
	size_t header = 0;
	unsigned shift = 0;
	struct SB {
		unsigned code;
		size_t csize, dsize, off;
	};
	std::vector<SB> sbs;
};

inline size_t base_superblock(size_t bpp)
{
	size_t bs = bpp * 256;
	return bs > 131072 ? bs : (131072 / bs) * bs;
}

// Parse the frame structure. Returns an empty string on success.
inline std::string parse(const uint8_t* f, size_t n, size_t bpp, Frame& fr)
{
	if (n < 8)
		return "short header";
	fr.shift = f[0];
	if (fr.shift > 4 && fr.shift != 255)
		return "bad shift";
	fr.size = 0;
	for (int i = 6; i >= 0; --i)
		fr.size = fr.size << 8 | f[1 + i];
	size_t p = 8;
	if (fr.shift == 255) {
		if (n < 12)
			return "short custom header";
		fr.superblock = f[8] | f[9] << 8 | f[10] << 16 | (size_t)f[11] << 24;
		p = 12;
	}
	else
		fr.superblock = base_superblock(bpp) << fr.shift;
	fr.header = p;
	if (fr.size && fr.superblock == 0)
		return "null superblock";
	uint64_t left = fr.size;
	while (left) {
		if (n - p < 4)
			return "short superblock header";
		Frame::SB s;
		s.code = f[p];
		s.csize = f[p + 1] | f[p + 2] << 8 | f[p + 3] << 16;
		s.dsize = left < fr.superblock ? (size_t)left : fr.superblock;
		p += 4;
		s.off = p;
		if (n - p < s.csize)
			return "short superblock";
		p += s.csize;
		left -= s.dsize;
		fr.sbs.push_back(s);
	}
	if (p != n)
		return "trailing bytes";
	return "";
}

inline std::string decode(const uint8_t* f, size_t n, size_t bpp, Bytes& out, Stats* st, Frame* fo = nullptr)
{
	Frame fr;
	std::string e = parse(f, n, bpp, fr);
	if (fo)
		*fo = fr;
	if (!e.empty())
		return e;
	out.resize(fr.size);
	size_t o = 0;
	Bytes t, t2;
	for (auto& s : fr.sbs) {
		if (st && s.code < 8)
			st->code[s.code]++;
		const uint8_t* p = f + s.off;
		uint8_t* d = out.data() + o;
		std::string why;
		switch (s.code) {
			case 1:
				if (!block_stream(p, s.csize, bpp, d, s.dsize, st, &why))
					return "BLOCK: " + why;
				break;
			case 2:
				if (ZSTD_decompress(d, s.dsize, p, s.csize) != s.dsize)
					return "ZSTD";
				break;
			case 3:
				t.resize(s.dsize);
				if (ZSTD_decompress(t.data(), s.dsize, p, s.csize) != s.dsize)
					return "TRANSPOSED_ZSTD";
				untranspose(t.data(), d, bpp, s.dsize);
				break;
			case 4:
				t.resize(s.dsize);
				t2.resize(s.dsize);
				if (ZSTD_decompress(t.data(), s.dsize, p, s.csize) != s.dsize)
					return "TRANSPOSED_DELTA_ZSTD";
				undelta(t.data(), t2.data(), s.dsize);
				untranspose(t2.data(), d, bpp, s.dsize);
				break;
			case 5: {
				t.resize(fr.superblock);
				size_t r = ZSTD_decompress(t.data(), t.size(), p, s.csize);
				if (ZSTD_isError(r))
					return "BLOCK_ZSTD";
				if (!block_stream(t.data(), r, bpp, d, s.dsize, st, &why))
					return "BLOCK_ZSTD: " + why;
			} break;
			case 6:
				if (s.csize != s.dsize)
					return "COPY size";
				memcpy(d, p, s.dsize);
				break;
			default:
				return "unknown code";
		}
		o += s.dsize;
	}
	return "";
}
} // namespace ref
