// P28: how many superblocks are really processed at once.  The entry points of libzstd are interposed (the executable's definitions come
// first): the threads that reach them gather there, so that simultaneous processing shows, and are counted.
#include "gen.hpp"
#include <dlfcn.h>
#include <condition_variable>
#include <stenos/stenos.h>
#include <zstd.h>
using namespace vh;

namespace gate {
static std::mutex m;
static std::condition_variable cv;
static int inside, most, want, entries;
static bool on, met, expired;
static unsigned patience_ms;
static std::set<std::thread::id>* ids;
static thread_local int depth;

struct Pass {
	bool active = false;
	Pass()
	{
		if (depth++)
			return;
		std::unique_lock<std::mutex> l(m);
		if (!on)
			return;
		active = true;
		++entries;
		ids->insert(std::this_thread::get_id());
		if (++inside > most)
			most = inside;
		touch();
		if (inside >= want) {
			met = true;
			cv.notify_all();
		}
		// wait for the others, once: when they have met (or patience is over) everybody passes at once
		if (!met && !expired)
			if (!cv.wait_for(l, std::chrono::milliseconds(patience_ms), [] { return met || expired; }))
				expired = true, patience_ms = 1500, cv.notify_all(); // (the verdict needs one long wait only)
	}
	~Pass()
	{
		--depth;
		if (!active)
			return;
		std::lock_guard<std::mutex> l(m);
		--inside;
	}
};
template<class F>
F* real(const char* n)
{
	static_assert(sizeof(void*) == sizeof(F*), "");
	F* f = (F*)dlsym(RTLD_NEXT, n);
	if (!f)
		abort();
	return f;
}
} // namespace gate

extern "C" {
#define FWD(ret, name, params, args)                                                                                                                                                                   \
	ret name params                                                                                                                                                                                \
	{                                                                                                                                                                                              \
		static auto* f = gate::real<ret params>(#name);                                                                                                                                        \
		gate::Pass p;                                                                                                                                                                          \
		return f args;                                                                                                                                                                         \
	}
FWD(size_t, ZSTD_compress, (void* d, size_t dn, const void* s, size_t n, int l), (d, dn, s, n, l))
FWD(size_t, ZSTD_compressCCtx, (ZSTD_CCtx * c, void* d, size_t dn, const void* s, size_t n, int l), (c, d, dn, s, n, l))
FWD(size_t, ZSTD_compress2, (ZSTD_CCtx * c, void* d, size_t dn, const void* s, size_t n), (c, d, dn, s, n))
FWD(size_t, ZSTD_decompress, (void* d, size_t dn, const void* s, size_t n), (d, dn, s, n))
FWD(size_t, ZSTD_decompressDCtx, (ZSTD_DCtx * c, void* d, size_t dn, const void* s, size_t n), (c, d, dn, s, n))
}

int main(int argc, char** argv)
{
	gate::ids = new std::set<std::thread::id>;
	gate::patience_ms = 20000;
	const int cpus = (int)std::thread::hardware_concurrency();
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		// text-like content of one-byte elements: every superblock goes through zstd, in both directions
		size_t bpp = 1;
		int level = (int)r.range(2, 5);
		int sbs = (int)r.range(1, 14);
		size_t S = 131072u << (sbs > 1 ? (level - 1) / 2 : 0);
		if (sbs > 6 && S > 262144)
			sbs = 6;
		size_t n = S * (size_t)(sbs - 1) + r.range(2000, S);
		std::vector<uint8_t> in(n), fr(stenos_bound(n)), out(n);
		static const char* words[] = { "the ", "compressed ", "of ", "vector ", "and ", "memory ", "\n", "superblock ", "0x", "1234 ", "in " };
		for (size_t k = 0; k < n;) {
			const char* w = words[r.below(11)];
			for (; *w && k < n; ++w)
				in[k++] = (uint8_t)*w;
			if (k < n && r.chance(1, 3))
				in[k++] = r.u8();
		}
		int threads = r.chance(1, 5) ? 1 : (int)r.range(2, 10);
		std::string d = fmt("n=%zu superblocks=%d level=%d threads=%d", n, sbs, level, threads);
		note(d);
		stenos_context* x = stenos_make_context();
		stenos_set_level(x, level);
		stenos_set_threads(x, threads);
		auto arm = [&](int want) {
			std::lock_guard<std::mutex> l(gate::m);
			gate::on = true;
			gate::want = want;
			gate::met = gate::expired = false;
			gate::most = gate::inside = gate::entries = 0;
			gate::ids->clear();
		};
		auto disarm = [&] {
			std::lock_guard<std::mutex> l(gate::m);
			gate::on = false;
		};
		// the pool has threads enough for every case generated on a machine of 8 cores
		int room = std::max(1, std::min(threads, sbs));
		int want = std::min(room, std::max(2, cpus));
		size_t res = 0;
		for (int dir = 0; dir < 2; ++dir) {
			const char* what = dir ? "decompression" : "compression";
			arm(want);
			note(d + " " + what);
			size_t e = dir ? stenos_decompress_generic(x, fr.data(), bpp, res, out.data(), n) : (res = stenos_compress_generic(x, in.data(), bpp, n, fr.data(), fr.size()));
			disarm();
			if (stenos_has_error(e)) {
				violation("par:failed", d + fmt(": %s returned %zd", what, (ssize_t)e));
				break;
			}
			if (!gate::entries) {
				count("unobserved"); // another coder is in use: nothing is concluded
				continue;
			}
			count(dir ? "decompressions" : "compressions");
			maximum("simultaneous_superblocks", (uint64_t)gate::most);
			count("gatherings", gate::met && want > 1);
			// more entries than superblocks seen: each goes through it
			if (gate::entries >= sbs && !gate::met)
				violation("par:sequential", d + fmt(": at most %d superblocks processed at once during a %s, %d expected", gate::most, what, want));
			if (gate::most > room)
				violation("par:too-many", d + fmt(": %d superblocks processed at once during a %s", gate::most, what));
			if (threads == 1 && (gate::ids->size() != 1 || !gate::ids->count(std::this_thread::get_id())))
				violation("par:caller", d + fmt(": a single-threaded %s ran in another thread", what));
			evaluated(hcomb(hcomb((uint64_t)sbs, (uint64_t)threads), hcomb((uint64_t)(level * 2 + dir), n)), sbs > 1 && threads > 1);
		}
		if (!stenos_has_error(res) && memcmp(in.data(), out.data(), n))
			violation("par:content", d + ": the round trip changed the data");
		stenos_destroy_context(x);
		if (i < 4)
			sample(d + fmt(": up to %d at once", gate::most));
	});
}
