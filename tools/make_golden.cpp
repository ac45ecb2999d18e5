// Writes golden/frames.bin: frames of the pinned version (run once; built against a worktree of the pinned commit).
#include "gen.hpp"
#include "refdec.hpp"
#include <stenos/stenos.h>
#include <sys/wait.h>
#include <sys/mman.h>
using namespace vh;
int main(int argc, char** argv)
{
	FILE* f = fopen(argv[1], argv[2][0] == 'a' ? "ab" : "wb");
	uint64_t seed = strtoull(argv[3], 0, 10);
	size_t limit = (size_t)atoll(argv[4]), total = 0, n = 0, died = 0;
	std::set<uint64_t> cov;
	for (uint64_t i = 0; total < limit && i < 60000; ++i) {
		Rng r(seed, i, 99);
		gen::Case c = gen::make(r, 40000);
		if (r.chance(1, 60)) {
			static const size_t b[] = { 65534, 32768, 8193, 2000, 600 };
			c.bpp = b[r.below(5)];
			c.size = r.below(c.bpp * 260);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, 1 + (int)r.below(3));
			c.level = (int)r.below(10);
		}
		if (r.chance(1, 30)) { // several default superblocks, compressible
			c.size = 131072 * r.range(2, 5) + r.below(1000);
			c.data.resize(c.size);
			static const int ks[] = { 1, 2, 3, 7 };
			gen::fill(r, c.data.data(), c.size, c.bpp, ks[r.below(4)]);
		}
		int threads = r.chance(1, 4) ? 3 : 1;
		size_t shift = STENOS_NO_BLOCK_SHIFT;
		if (r.chance(1, 3)) {
			shift = r.below(4);
			if (((c.bpp * 256) << shift) >= STENOS_MAX_BLOCK_BYTES)
				continue;
		}
		bool limited = r.chance(1, 15);
		gen::Bytes o(stenos_bound(c.size) + 4 * (c.size / 256 + 4) + 4096), out;
		// The pinned version has memory errors: compress in a child, and forget the cases where it dies.
		const size_t room = o.size() + 8;
		uint8_t* sh = (uint8_t*)mmap(0, room, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		uint64_t t1 = r.below(c.size + 1), t2 = r.chance(1, 2);
		pid_t pid = fork();
		if (!pid) {
			alarm(4);
			stenos_context* x = stenos_make_context();
			stenos_set_level(x, c.level);
			stenos_set_threads(x, threads);
			if (shift != STENOS_NO_BLOCK_SHIFT)
				stenos_set_block_size(x, shift);
			if (limited)
				stenos_set_max_nanoseconds(x, t2 ? 1 + t1 : 1000000000ull);
			uint64_t rr = stenos_compress_generic(x, c.data.data(), c.bpp, c.size, o.data(), o.size());
			if (!stenos_has_error(rr)) {
				gen::Bytes out2(c.size + 64);
				if (stenos_decompress(o.data(), c.bpp, rr, out2.data(), c.size) != c.size || memcmp(out2.data(), c.data.data(), c.size))
					rr = (uint64_t)-1;
			}
			if (!stenos_has_error(rr))
				memcpy(sh + 8, o.data(), rr);
			memcpy(sh, &rr, 8);
			_exit(0);
		}
		int ws = 0;
		waitpid(pid, &ws, 0);
		uint64_t rr = (uint64_t)-1;
		if (WIFEXITED(ws)) {
			memcpy(&rr, sh, 8);
			if (!stenos_has_error(rr))
				memcpy(o.data(), sh + 8, rr);
		}
		else
			++died;
		munmap(sh, room);
		if (stenos_has_error(rr))
			continue;
		o.resize(rr);
		ref::Stats s;
		ref::Frame fr;
		std::string e = ref::decode(o.data(), rr, c.bpp, out, &s, &fr);
		if (!e.empty() || out != c.data)
			continue; // a defect of the pinned version: not a valid frame
		bool fresh = false;
		auto add = [&](uint64_t k) { fresh |= cov.insert(mix(k)).second; };
		const uint64_t* w = (const uint64_t*)&s;
		uint64_t sig = 0;
		for (size_t k = 0; k < sizeof(s) / 8; ++k)
			if (w[k]) {
				add(hcomb(k, c.bpp < 34 ? c.bpp : 100 + c.bpp % 4));
				sig = hcomb(sig, k);
			}
		for (auto& b : fr.sbs)
			add(hcomb(1000 + b.code, hcomb(c.bpp, (uint64_t)c.level)));
		add(hcomb(2000, hcomb(fr.shift, hcomb((uint64_t)c.level, fr.sbs.size() < 4 ? fr.sbs.size() : 4))));
		add(hcomb(3000, hcomb(c.bpp < 20 ? c.bpp : 0, c.size < 600 ? c.size / 16 : 1000 + c.size % 16)));
		if (!fresh || (rr > 30000 && !r.chance(1, 8)))
			continue;
		uint64_t head[4] = { c.bpp, c.size, rr, fnv(c.data.data(), c.size) };
		fwrite(head, 1, sizeof head, f);
		fwrite(o.data(), 1, rr, f);
		total += rr + sizeof head;
		++n;
	}
	fclose(f);
	printf("%zu frames, %zu bytes, %zu died\n", n, total, died);
}
