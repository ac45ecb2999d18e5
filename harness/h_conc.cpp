// P07: many threads with their own contexts; every call returns what it returns alone; no race, no lost wake-up.
#include "perturb.hpp"
#include "gen.hpp"
#include <stenos/stenos.h>
using namespace vh;

struct Job {
	gen::Case c;
	size_t shift;
	int threads;
	bool simple;
	gen::Bytes frame;
};

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	const unsigned maxcallers = (unsigned)atoi(opt("callers", "24").c_str());
	const size_t cap = (size_t)atoll(opt("cap", "60000").c_str());
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		static const unsigned pl[] = { 0, 50, 8, 3 };
		perturb::level = 0;
		unsigned callers = (unsigned)r.range(2, maxcallers);
		unsigned njobs = (unsigned)r.range(2, 6);
		std::vector<Job> jobs(njobs);
		uint64_t sig = 0;
		for (auto& j : jobs) {
			j.c.bpp = 1 + r.below(24);
			j.c.level = (int)r.below(4);
			j.c.kind = (int)r.below(gen::KINDS);
			j.shift = r.chance(4, 5) ? r.below(3) : STENOS_NO_BLOCK_SHIFT;
			size_t sb = j.shift == STENOS_NO_BLOCK_SHIFT ? gen::base_superblock(j.c.bpp) : (j.c.bpp * 256) << j.shift;
			j.c.size = j.shift == STENOS_NO_BLOCK_SHIFT ? r.below(cap * 5) : sb * r.range(1, cap / sb + 2) + r.below(sb);
			if (j.c.size > cap * 5)
				j.c.size = cap * 5;
			j.threads = r.chance(1, 5) ? 1 : (int)r.range(2, 12);
			j.simple = r.chance(1, 8) && j.shift == STENOS_NO_BLOCK_SHIFT;
			j.c.data.resize(j.c.size);
			gen::fill(r, j.c.data.data(), j.c.size, j.c.bpp, j.c.kind);
			note("prepare " + j.c.str());
			j.frame.resize(12 + j.c.size + 4 * (j.c.size / sb + 2));
			stenos_context* x = stenos_make_context();
			stenos_set_level(x, j.c.level);
			stenos_set_block_size(x, j.shift);
			size_t n = stenos_compress_generic(x, j.c.data.data(), j.c.bpp, j.c.size, j.frame.data(), j.frame.size());
			stenos_destroy_context(x);
			if (stenos_has_error(n)) {
				violation("conc:compress", j.c.str());
				return;
			}
			j.frame.resize(n);
			sig = hcomb(sig, fnv(j.frame.data(), n));
		}
		note(fmt("run callers=%u jobs=%u ", callers, njobs) + jobs[0].c.str());
		perturb::level = pl[r.below(4)];
		unsigned rounds = (unsigned)r.range(3, 10);
		std::atomic<unsigned> ready{ 0 };
		std::atomic<uint64_t> calls{ 0 };
		std::atomic<int> in_calls{ 0 }, max_in{ 0 };
		std::vector<std::thread> th;
		uint64_t base = r.u64();
		for (unsigned t = 0; t < callers; ++t)
			th.emplace_back([&, t]() {
				Rng q(base, t, 5);
				stenos_context* x = stenos_make_context();
				gen::Bytes o, d;
				ready.fetch_add(1);
				while (ready.load() < callers)
					std::this_thread::yield();
				for (unsigned k = 0; k < rounds; ++k) {
					Job& j = jobs[q.below(njobs)];
					int n = in_calls.fetch_add(1) + 1, m = max_in.load();
					while (n > m && !max_in.compare_exchange_weak(m, n)) {
					}
					if (q.chance(1, 2)) {
						o.assign(12 + j.c.size + 4 * (j.c.size / (256 * j.c.bpp) + 2), 0);
						size_t rr;
						if (j.simple)
							rr = stenos_compress(j.c.data.data(), j.c.bpp, j.c.size, o.data(), o.size(), j.c.level);
						else {
							stenos_set_level(x, j.c.level);
							stenos_set_threads(x, j.threads);
							stenos_set_block_size(x, j.shift);
							rr = stenos_compress_generic(x, j.c.data.data(), j.c.bpp, j.c.size, o.data(), o.size());
						}
						if (rr != j.frame.size() || memcmp(o.data(), j.frame.data(), rr))
							violation("conc:compressed", j.c.str() + fmt(" callers=%u threads=%d: %zd, alone %zu", callers, j.threads, (ssize_t)rr, j.frame.size()));
					}
					else {
						d.assign(j.c.size + 1, 0x33);
						size_t rr;
						if (j.simple)
							rr = stenos_decompress(j.frame.data(), j.c.bpp, j.frame.size(), d.data(), j.c.size);
						else {
							stenos_set_threads(x, j.threads);
							rr = stenos_decompress_generic(x, j.frame.data(), j.c.bpp, j.frame.size(), d.data(), j.c.size);
						}
						if (rr != j.c.size || memcmp(d.data(), j.c.data.data(), rr) || d[j.c.size] != 0x33)
							violation("conc:decompressed", j.c.str() + fmt(" callers=%u threads=%d: %zd", callers, j.threads, (ssize_t)rr));
					}
					in_calls.fetch_sub(1);
					calls.fetch_add(1);
					touch();
					if (q.chance(1, 20)) {
						stenos_destroy_context(x);
						x = stenos_make_context();
					}
				}
				stenos_destroy_context(x);
			});
		for (auto& t : th)
			t.join();
		perturb::level = 0;
		count("calls", calls.load());
		maximum("simultaneous_calls", (uint64_t)max_in.load());
		maximum("injected_delays_per_shard", perturb::delays.load());
		evaluated(hcomb(sig, callers * 100 + rounds), max_in.load() > 1);
		if (i < 4)
			sample(fmt("callers=%u rounds=%u jobs=%u first: ", callers, rounds, njobs) + jobs[0].c.str());
	});
}
