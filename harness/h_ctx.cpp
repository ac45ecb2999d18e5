// P08: any history on one context == fresh context with the same parameters.
#include "gen.hpp"
#include "mutate.hpp"
#include <stenos/stenos.h>
using namespace vh;

struct Par {
	int level = 1, threads = 1;
	size_t shift = STENOS_NO_BLOCK_SHIFT;
	uint64_t ns = 0;
};
static void apply(stenos_context* x, const Par& p, bool all = true)
{
	stenos_set_level(x, p.level);
	stenos_set_threads(x, p.threads);
	stenos_set_block_size(x, p.shift);
	stenos_set_max_nanoseconds(x, p.ns);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		stenos_context* ctx = stenos_make_context();
		Par p;
		std::string hist;
		uint64_t sig = 0;
		unsigned ops = (unsigned)r.range(4, 14);
		const size_t cap = r.chance(1, 4) ? 400000 : 40000;
		std::vector<size_t> bpps; // few element sizes, so that buffers get reused
		for (int k = 0; k < 3; ++k)
			bpps.push_back(gen::pick_bpp(r));
		for (unsigned k = 0; k < ops; ++k) {
			unsigned op = (unsigned)r.below(12);
			if (op == 0) {
				stenos_reset_context(ctx);
				p = Par();
				hist += "reset ";
				continue;
			}
			if (op <= 3) { // change some parameters, only those
				if (r.chance(1, 2)) {
					p.level = (int)r.below(8);
					stenos_set_level(ctx, p.level);
				}
				if (r.chance(1, 2)) {
					p.threads = r.chance(1, 2) ? 1 : (int)r.range(2, 6);
					stenos_set_threads(ctx, p.threads);
				}
				if (r.chance(1, 3)) {
					p.shift = r.chance(1, 2) ? r.below(5) : STENOS_NO_BLOCK_SHIFT;
					stenos_set_block_size(ctx, p.shift);
				}
				if (r.chance(1, 6)) {
					p.ns = r.chance(1, 2) ? 0 : (r.chance(1, 2) ? 1 + r.below(20000) : 3600000000000ull);
					stenos_set_max_nanoseconds(ctx, p.ns);
				}
				if (r.chance(1, 6))
					stenos_set_block_size(ctx, 16 + r.below(100)); // refused: no effect
				hist += fmt("set(l%d t%d s%zd ns%llu) ", p.level, p.threads, (ssize_t)p.shift, (unsigned long long)p.ns);
				continue;
			}
			if (p.ns && r.chance(1, 2)) {
				p.ns = 0;
				stenos_set_max_nanoseconds(ctx, 0);
			}
			gen::Case c;
			c.bpp = bpps[r.below(bpps.size())];
			c.level = p.level;
			c.kind = (int)r.below(gen::KINDS);
			c.size = gen::pick_size(r, c.bpp, cap);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
			bool badshift = p.shift != STENOS_NO_BLOCK_SHIFT && ((c.bpp * 256) << p.shift) >= STENOS_MAX_BLOCK_BYTES;
			size_t bound = 12 + c.size + 4 * (c.size / (256 * c.bpp) + 2);
			note(hist.substr(hist.size() > 600 ? hist.size() - 600 : 0) + "| " + c.str());
			if (op <= 7) { // compress
				size_t n = bound;
				if (op == 7) {
					n = r.chance(1, 2) ? r.below(bound) : r.below(20);
					hist += "short-";
				}
				size_t bb = c.bpp;
				if (r.chance(1, 20)) {
					bb = r.chance(1, 2) ? 0 : 65535 + r.below(10);
					hist += "badtype-";
				}
				gen::Bytes a(n), b(n);
				size_t r1 = stenos_compress_generic(ctx, c.data.data(), bb, c.size, a.data(), n);
				hist += fmt("compress(bpp%zu n%zu)=%zd ", bb, c.size, (ssize_t)r1);
				if (p.ns == 0) {
					stenos_context* f = stenos_make_context();
					apply(f, p);
					size_t r2 = stenos_compress_generic(f, c.data.data(), bb, c.size, b.data(), n);
					stenos_destroy_context(f);
					bool e1 = stenos_has_error(r1), e2 = stenos_has_error(r2);
					if (r1 != r2)
						violation(e1 || e2 ? "ctx:outcome" : "ctx:size", hist + c.str() + fmt(": %zd, new context %zd", (ssize_t)r1, (ssize_t)r2));
					else if (!e1 && memcmp(a.data(), b.data(), r1))
						violation("ctx:bytes", hist + c.str());
					if (!e1 && n == bound && !badshift && bb == c.bpp)
						count("compressions_compared");
					else
						count("failures_compared");
				}
				else
					count("time_limited_operations");
				if (!stenos_has_error(r1)) {
					gen::Bytes o(c.size);
					size_t d = stenos_decompress(a.data(), c.bpp, r1, o.data(), c.size);
					if (bb == c.bpp && (d != c.size || o != c.data))
						violation("ctx:roundtrip", hist + c.str() + fmt(": %zd", (ssize_t)d));
				}
				else if (n == bound && !badshift && bb == c.bpp)
					violation("ctx:refused", hist + c.str() + fmt(": %zd", (ssize_t)r1));
				sig = hcomb(sig, r1);
			}
			else { // decompress a frame, possibly damaged
				int fl = (int)r.below(6);
				gen::Bytes f = mut::compress(c.data, c.bpp, fl, r.chance(1, 3) ? r.below(4) : STENOS_NO_BLOCK_SHIFT);
				if (f.empty())
					continue;
				if (op >= 10)
					hist += "damaged-" + mut::mutate(r, f, c.bpp);
				gen::Bytes a(c.size + 8, 7), b(c.size + 8, 9);
				size_t n = c.size;
				if (r.chance(1, 10))
					n = r.below(n + 1);
				size_t r1 = stenos_decompress_generic(ctx, f.data(), c.bpp, f.size(), a.data(), n);
				hist += fmt("decompress(bpp%zu n%zu)=%zd ", c.bpp, c.size, (ssize_t)r1);
				stenos_context* x = stenos_make_context();
				apply(x, p);
				size_t r2 = stenos_decompress_generic(x, f.data(), c.bpp, f.size(), b.data(), n);
				stenos_destroy_context(x);
				if (r1 != r2)
					violation("ctx:decompress-outcome", hist + fmt(": new context %zd", (ssize_t)r2));
				else if (!stenos_has_error(r1) && memcmp(a.data(), b.data(), r1))
					violation("ctx:decompress-bytes", hist);
				count("decompressions_compared");
				sig = hcomb(sig, r1);
			}
			evaluated(sig);
		}
		if (i < 3)
			sample(hist.substr(0, 300));
		stenos_destroy_context(ctx);
	});
}
