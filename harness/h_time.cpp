// P10: time-limited compression under a virtual clock.
#include "perturb.hpp"
#include "gen.hpp"
#include "guard.hpp"
#include "refdec.hpp"
#include "vclock.hpp"
#include <stenos/stenos.h>
using namespace vh;

namespace {
enum { SLOW, JUMP, RANDOM, ZERO, BACK, EXPIRED };
struct Clock {
	std::mutex m;
	Rng r{ 1 };
	int mode = SLOW;
	uint64_t now = 1000000000ull, start = 0, limit = 0, step = 1;
	uint64_t calls = 0, jump_at = 0;
	bool started = false, crossed = false;
	size_t complete = 0; // superblocks fully written to the destination when the limit was crossed
	const uint8_t *dst = nullptr, *end = nullptr;

	size_t walk() const
	{
		if (!dst)
			return 0;
		const uint8_t* p = dst + (dst[0] == 255 ? 12 : 8);
		size_t n = 0;
		while (p + 4 <= end && p[0] >= 1 && p[0] <= 6) {
			size_t c = p[1] | p[2] << 8 | p[3] << 16;
			p += 4 + c;
			++n;
		}
		return n;
	}
	uint64_t query()
	{
		std::lock_guard<std::mutex> l(m);
		++calls;
		if (!started) {
			started = true;
			start = now;
			return now;
		}
		switch (mode) {
			case SLOW: now += step; break;
			case JUMP:
				now += step;
				if (calls == jump_at)
					now += limit + r.below(limit * 3 + 2);
				break;
			case RANDOM:
				now += r.chance(1, 3) ? r.below(limit / 10 + 2) : r.below(step + 1);
				break;
			case ZERO: break;
			case BACK:
				if (r.chance(1, 4))
					now -= r.below(step + 1);
				else
					now += r.below(limit / 20 + 2);
				break;
			default: now += limit + 1;
		}
		if (!crossed && now - start >= limit && mode != BACK) {
			crossed = true;
			complete = walk();
		}
		return now;
	}
};
Clock& C()
{
	static Clock* c = new Clock;
	return *c;
}
uint64_t query(clockid_t) { return C().query(); }
} // namespace

int main(int argc, char** argv)
{
	static Guard gd, go;
	static stenos_context* kept = stenos_make_context();
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		static const unsigned pl[] = { 0, 0, 20, 4 };
		perturb::level = pl[r.below(4)];
		gen::Case c = gen::make(r, 60000);
		bool tall = false;
		switch (r.below(4)) {
			case 0: break;
			case 1: { // superblocks of a single block
				c.bpp = r.range(200, 2000);
				c.size = c.bpp * 256 * r.range(1, 8) + r.below(c.bpp * 256);
				tall = true;
			} break;
			default: { // several superblocks
				if (c.bpp > 600)
					c.bpp = 1 + r.below(64);
				c.size = gen::base_superblock(c.bpp) * r.range(1, 6) + (r.chance(1, 2) ? r.below(100000) : 0);
			}
		}
		if (c.size > 1500000)
			c.size = 1500000;
		c.data.resize(c.size);
		gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
		int threads = r.chance(1, 2) ? 1 : (int)r.range(2, 9);
		bool reuse = r.chance(1, 2);
		stenos_context* ctx = reuse ? kept : stenos_make_context();
		int mode = (int)r.below(6);
		if (r.chance(1, 3))
			mode = JUMP;
		else if (r.chance(1, 6))
			mode = SLOW;
		Clock& k = C();
		uint64_t lim;
		switch (r.below(5)) {
			case 0: lim = 1 + r.below(1000); break;
			case 1: lim = 1 + r.below(1000000); break;
			case 2: lim = 1 + r.below(100000000); break;
			case 3: lim = c.size / 2 + 1 + r.below(c.size + 1); break; // around the speed of the method
			default: lim = 1000000000ull * (1 + r.below(1000));
		}
		uint64_t step = 1 + (r.chance(1, 2) ? r.below(1000) : r.below(lim / 50 + 2));
		if (mode == SLOW) { // never approached
			lim = 1000000000ull * r.range(1000, 100000);
			step = 1 + r.below(100000);
			if (r.chance(1, 3)) {
				lim = ~0ull >> r.below(20);
				count("huge_limits");
			}
			if (r.chance(1, 2)) { // ordinary compressible content
				static const int cs[] = { 1, 2, 3, 7, 10 };
				c.kind = cs[r.below(5)];
				gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
			}
		}
		{
			std::lock_guard<std::mutex> l(k.m);
			k.r = Rng(r.u64());
			k.mode = mode;
			k.limit = lim;
			k.step = step;
			k.now += r.below(1000000000ull * 50);
			k.calls = 0;
			k.jump_at = 2 + r.below(r.chance(1, 2) ? 12 : 80);
			k.started = k.crossed = false;
			k.complete = 0;
		}
		stenos_set_level(ctx, c.level);
		stenos_set_threads(ctx, threads);
		stenos_set_max_nanoseconds(ctx, lim);
		std::string d = c.str() + fmt(" threads=%d limit=%llu step=%llu mode=%d jump=%llu reuse=%d", threads, (unsigned long long)lim, (unsigned long long)step, mode, (unsigned long long)k.jump_at, reuse);
		note(d);
		size_t bound = stenos_bound(c.size);
		uint8_t* o = gd.high(bound);
		memset(o, 0, bound);
		k.dst = o;
		k.end = o + bound;
		vclock::hook().store(&query);
		size_t rr = stenos_compress_generic(ctx, c.data.data(), c.bpp, c.size, o, bound);
		vclock::hook().store(nullptr);
		k.dst = nullptr;
		count("clock_queries", k.calls);
		if (stenos_has_error(rr) || rr > bound) {
			violation("time:compress", d + fmt(": %zd of bound %zu", (ssize_t)rr, bound));
			if (!reuse)
				stenos_destroy_context(ctx);
			return;
		}
		// decompression, by the same context or a new one
		std::vector<uint8_t> f(o, o + rr);
		uint8_t* out = go.high(c.size);
		memset(out, 0x5A, c.size);
		size_t ds = r.chance(1, 2) ? stenos_decompress_generic(ctx, f.data(), c.bpp, rr, out, c.size) : stenos_decompress(f.data(), c.bpp, rr, out, c.size);
		if (ds != c.size)
			violation("time:decompress", d + fmt(": %zd", (ssize_t)ds));
		else if (c.size && memcmp(out, c.data.data(), c.size))
			violation("time:bytes", d);
		ref::Frame fr;
		std::string e = ref::parse(f.data(), rr, c.bpp, fr);
		if (!e.empty())
			violation("time:layout", d + ": " + e);
		else {
			size_t stored = 0, codes = 0;
			for (auto& s : fr.sbs) {
				stored += s.code == 6 || s.csize >= s.dsize;
				codes |= 1u << s.code;
			}
			for (unsigned b = 1; b < 7; ++b)
				if (codes >> b & 1)
					count(fmt("frames_with_superblock_code_%u", b));
			maximum("superblocks", fr.sbs.size());
			if (k.crossed) {
				count("limits_crossed");
				// superblocks started after the limit: all those that were neither written nor being coded by a thread
				size_t first = k.complete + (threads > 1 ? (size_t)threads : 1);
				if (mode == EXPIRED)
					first = k.complete; // over at the first reading that follows the start
				for (size_t s = first; s < fr.sbs.size(); ++s) {
					count("superblocks_after_limit");
					if (fr.sbs[s].code != 6 && fr.sbs[s].csize < fr.sbs[s].dsize) {
						violation("time:not-stored", d + fmt(": superblock %zu of %zu (method %u, %zu bytes coded in %zu) was compressed although the limit was exceeded while superblock %zu was processed", s,
										     fr.sbs.size(), fr.sbs[s].code, fr.sbs[s].dsize, fr.sbs[s].csize, k.complete));
						break;
					}
				}
			}
			if (mode == SLOW) {
				// compare with an unlimited compression at level 1
				gen::Bytes u(bound);
				size_t ur = stenos_compress(c.data.data(), c.bpp, c.size, u.data(), bound, 1);
				count("limits_never_approached");
				if (!stenos_has_error(ur) && c.size > 2000 && ur < c.size / 3) {
					// the methods chosen differ from those of level 1: what matters is that the savings are not given up
					count("limits_never_approached_compressible");
					maximum(fmt("percent_of_size_%zu", ur * 20 / c.size * 5), rr * 100 / c.size);
					if (rr > c.size / 2 + 200)
						violation("time:not-compressed", d + fmt(": %zu bytes with an unreachable limit, %zu without at level 1", rr, ur));
				}
			}
			if (tall)
				count("single_block_superblocks");
			evaluated(hcomb(hcomb(c.bpp, c.size), hcomb(fnv(f.data(), rr), (uint64_t)mode)), c.size > 0);
			if (i < 6)
				sample(d + fmt(" -> %zu bytes, %zu/%zu superblocks stored, %llu clock readings", rr, stored, fr.sbs.size(), (unsigned long long)k.calls));
		}
		// neither the time nor the bytes of earlier calls count: the same call again, after a pause longer than the limit
		if (mode == SLOW && lim < 1000000000000000ull && c.size > 2000 && c.size < 400000) {
			gen::Bytes a(bound);
			size_t reps = r.range(2, 4);
			for (size_t k2 = 0; k2 < reps; ++k2) {
				{
					std::lock_guard<std::mutex> l(k.m);
					k.now += lim + r.below(lim);
					k.started = k.crossed = false;
					k.calls = 0;
				}
				vclock::hook().store(&query);
				size_t rn = stenos_compress_generic(ctx, c.data.data(), c.bpp, c.size, a.data(), bound);
				vclock::hook().store(nullptr);
				if (stenos_has_error(rn))
					violation("time:repeat", d + fmt(": repetition %zu returned %zd", k2, (ssize_t)rn));
				else if (rr < c.size / 3 && rn > c.size / 2 + 200)
					violation("time:not-compressed", d + fmt(": %zu bytes, then %zu when repeated on the same context", rr, rn));
			}
			count("repetitions", reps);
		}
		// the limit does not stick to the context
		if (r.chance(1, 4)) {
			stenos_set_max_nanoseconds(ctx, 0);
			gen::Bytes a(bound), b(bound);
			size_t r1 = stenos_compress_generic(ctx, c.data.data(), c.bpp, c.size, a.data(), bound);
			size_t r2 = stenos_compress(c.data.data(), c.bpp, c.size, b.data(), bound, c.level);
			if (r1 != r2 || (!stenos_has_error(r1) && memcmp(a.data(), b.data(), r1)))
				violation("time:sticky", d + fmt(": unlimited compression after a limited one gives %zd bytes instead of %zd", (ssize_t)r1, (ssize_t)r2));
			count("unlimited_after_limited");
		}
		if (!reuse)
			stenos_destroy_context(ctx);
	});
}
