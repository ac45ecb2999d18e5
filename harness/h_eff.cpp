// P26: sizes of the frames written now against the sizes recorded with the pinned version on the same inputs, plus absolute rules.
#include "gen.hpp"
#include "refdec.hpp"
#include <stenos/stenos.h>
#include <sys/wait.h>
using namespace vh;

// Input i of the recorded corpus: never depends on the seed.
static gen::Case corpus(uint64_t i)
{
	static const int kinds[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15 };
	Rng r(20260, i, 5);
	gen::Case c;
	c.kind = kinds[i % 14];
	c.level = (int)((i / 14) % 10);
	c.bpp = gen::pick_bpp(r);
	c.size = r.chance(1, 4) ? c.bpp * r.range(1, 3000) : c.bpp * r.range(1, 1 + 150000 / c.bpp);
	if (r.chance(1, 3))
		c.size += r.below(c.bpp);
	if (c.level > 6 && c.size > 60000)
		c.size = 60000 - 60000 % c.bpp;
	c.data.resize(c.size);
	gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
	return c;
}
static size_t pack(const gen::Case& c, int threads, gen::Bytes& o)
{
	o.resize(stenos_bound(c.size) + 64);
	stenos_context* x = stenos_make_context();
	stenos_set_level(x, c.level);
	stenos_set_threads(x, threads);
	size_t r = stenos_compress_generic(x, c.data.data(), c.bpp, c.size, o.data(), stenos_bound(c.size));
	stenos_destroy_context(x);
	return r;
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	if (!opt("record").empty()) { // built against the pinned version
		FILE* f = fopen(opt("record").c_str(), "w");
		uint64_t n = strtoull(opt("n").c_str(), 0, 10);
		for (uint64_t i = 0; i < n; ++i) {
			int p[2];
			if (pipe(p))
				return 3;
			pid_t pid = fork();
			if (!pid) {
				alarm(10);
				gen::Bytes o;
				uint64_t s = pack(corpus(i), 1, o);
				if (write(p[1], &s, 8)) {}
				_exit(0);
			}
			close(p[1]);
			uint64_t s = 0;
			if (read(p[0], &s, 8) != 8 || stenos_has_error(s))
				s = 0;
			close(p[0]);
			waitpid(pid, 0, 0);
			fprintf(f, "%llu\n", (unsigned long long)s);
		}
		fclose(f);
		return 0;
	}
	std::vector<size_t> rec;
	if (FILE* f = fopen(opt("sizes").c_str(), "r")) {
		unsigned long long v;
		while (fscanf(f, "%llu", &v) == 1)
			rec.push_back(v);
		fclose(f);
	}
	if (rec.empty()) {
		fprintf(stderr, "no recorded sizes\n");
		return 3;
	}
	std::map<int, std::pair<double, double>> sums; // per level: now, pinned
	gen::Bytes o;
	run(argc, argv, [&](uint64_t i, Rng& r) {
		if (i < rec.size()) {
			gen::Case c = corpus(i);
			std::string d = fmt("corpus %zu ", (size_t)i) + c.str();
			note(d);
			size_t s = pack(c, 1 + (int)(i % 3), o);
			if (stenos_has_error(s))
				return violation("eff:error", d);
			evaluated(hcomb(i, s), c.size > 0);
			if (!rec[i]) {
				count("corpus_without_pinned_size");
				return;
			}
			count("corpus_inputs_compared");
			if (s != rec[i])
				count("sizes_that_differ_from_pinned");
			maximum("ratio_to_pinned_permille", s * 1000 / rec[i]);
			if (s > rec[i] + rec[i] / 20 + 48)
				violation("eff:bigger", d + fmt(": %zu bytes, %zu with the pinned version", s, rec[i]));
			sums[c.level].first += (double)s;
			sums[c.level].second += (double)rec[i];
			if (i < 3)
				sample(d + fmt(": %zu bytes, %zu with the pinned version", s, rec[i]));
			return;
		}
		// absolute rules on fresh inputs
		gen::Case c = gen::make(r, 300000);
		int what = (int)(i % 3);
		if (what == 0) { // one repeated element
			gen::Bytes e(c.bpp);
			bool bytes = r.chance(1, 2);
			for (auto& b : e)
				b = bytes ? e[0] : r.u8();
			if (bytes)
				memset(e.data(), r.u8(), e.size());
			c.size = c.bpp * r.range(20000 / c.bpp + 1000, 300000 / c.bpp + 2000);
			if (c.size > 3000000)
				c.size = 3000000 - 3000000 % c.bpp;
			c.data.resize(c.size);
			for (size_t k = 0; k < c.size; ++k)
				c.data[k] = e[k % c.bpp];
			c.level = (int)r.range(opt("block", "1") == "1" ? 1 : 2, 9); // without SSE4.1 level 1 stores, by design
		}
		else if (what == 1)
			c.level = 0;
		else
			gen::fill(r, c.data.data(), c.size, c.bpp, 0);
		std::string d = c.str();
		note(d);
		size_t s = pack(c, 1 + (int)r.below(4), o);
		if (stenos_has_error(s))
			return violation("eff:error", d);
		evaluated(hcomb(hcomb(c.bpp, c.size), hcomb(fnv(o.data(), s), (uint64_t)c.level)), c.size > 0);
		ref::Bytes out;
		ref::Frame fr;
		std::string e = ref::decode(o.data(), s, c.bpp, out, nullptr, &fr);
		if (!e.empty() || out != c.data)
			return violation("eff:content", d + ": " + e);
		if (what == 0) {
			count("constant_inputs");
			maximum("constant_permille", s * 1000 / c.size);
			// a trailing partial block costs up to about 40 bytes per byte plane at level 1
			if (s > c.size / 80 + 200 + (c.level == 1 ? 40 * c.bpp : 0))
				violation("eff:constant", d + fmt(": %zu bytes", s));
		}
		else {
			count(what == 1 ? "level0_inputs" : "incompressible_inputs");
			if (s > stenos_bound(c.size) || s < c.size)
				violation("eff:incompressible", d + fmt(": %zu bytes", s));
			if (what == 1)
				for (auto& b : fr.sbs)
					if (b.code != 6)
						violation("eff:level0", d + fmt(": superblock coded %d", b.code));
		}
	});
	for (auto& p : sums)
		if (p.second.first > p.second.second * 1.02 + 500)
			violation("eff:level-total", fmt("level %d: %.0f bytes over the corpus shard, %.0f with the pinned version", p.first, p.second.first, p.second.second));
	write_out();
	return 0;
}
