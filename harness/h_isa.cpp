// P11: frames produced by the build of any instruction set are decoded to the original bytes by every other build.
#include "gen.hpp"
#include "refdec.hpp"
#include <dlfcn.h>
#include <stenos/stenos.h>
using namespace vh;

struct Lib {
	std::string name;
	decltype(&stenos_make_context) make;
	decltype(&stenos_destroy_context) destroy;
	decltype(&stenos_set_level) level;
	decltype(&stenos_set_threads) threads;
	decltype(&stenos_set_block_size) block;
	decltype(&stenos_compress_generic) compress;
	decltype(&stenos_decompress_generic) decompress;
	decltype(&stenos_has_error) error;
};

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	std::vector<Lib> libs;
	for (auto& o : st().opt)
		if (o.first.substr(0, 4) == "lib_") {
			void* h = dlopen(o.second.c_str(), RTLD_NOW | RTLD_LOCAL);
			if (!h) {
				fprintf(stderr, "dlopen: %s\n", dlerror());
				return 3;
			}
			Lib l;
			l.name = o.first.substr(4);
#define GET(f, n)                                                                                                                                                                                      \
	l.f = (decltype(l.f))dlsym(h, n);                                                                                                                                                              \
	if (!l.f) {                                                                                                                                                                                    \
		fprintf(stderr, "no %s\n", n);                                                                                                                                                         \
		return 3;                                                                                                                                                                              \
	}
			GET(make, "stenos_make_context")
			GET(destroy, "stenos_destroy_context")
			GET(level, "stenos_set_level")
			GET(threads, "stenos_set_threads")
			GET(block, "stenos_set_block_size")
			GET(compress, "stenos_compress_generic")
			GET(decompress, "stenos_decompress_generic")
			GET(error, "stenos_has_error")
			libs.push_back(l);
		}
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		gen::Case c = gen::make(r, 150000);
		if (r.chance(1, 4)) { // element sizes with specialised transpositions
			static const size_t b[] = { 2, 3, 4, 6, 8, 12, 16, 24, 32, 10, 14 };
			c.bpp = b[r.below(11)];
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
		}
		int threads = r.chance(1, 6) ? (int)r.range(2, 4) : 1;
		size_t shift = STENOS_NO_BLOCK_SHIFT;
		if (r.chance(1, 5)) {
			shift = r.below(5);
			if (((c.bpp * 256) << shift) >= STENOS_MAX_BLOCK_BYTES)
				shift = STENOS_NO_BLOCK_SHIFT;
		}
		size_t sb = shift == STENOS_NO_BLOCK_SHIFT ? 65792 : (c.bpp * 256) << shift;
		size_t bound = 12 + c.size + 4 * (c.size / sb + 2);
		gen::Bytes f(bound), out(c.size + 1);
		std::set<std::vector<uint8_t>> seen;
		for (size_t p = 0; p < libs.size(); ++p) {
			Lib& a = libs[p];
			std::string d = c.str() + fmt(" threads=%d shift=%zd producer=%s", threads, (ssize_t)shift, a.name.c_str());
			note(d);
			stenos_context* x = a.make();
			a.level(x, c.level);
			a.threads(x, threads);
			a.block(x, shift);
			f.resize(bound);
			size_t rr = a.compress(x, c.data.data(), c.bpp, c.size, f.data(), bound);
			a.destroy(x);
			if (a.error(rr)) {
				violation("isa:compress", d + fmt(": %zd", (ssize_t)rr));
				continue;
			}
			f.resize(rr);
			if (!seen.insert(f).second) { // same bytes as another producer
				count("frames_identical_to_another_build");
				continue;
			}
			count("frames_of_" + a.name);
			for (size_t q = 0; q < libs.size(); ++q) {
				Lib& b = libs[q];
				note(d + " consumer=" + b.name);
				stenos_context* y = b.make();
				if (r.chance(1, 8))
					b.threads(y, 3);
				std::fill(out.begin(), out.end(), 0xA5);
				size_t ds = b.decompress(y, f.data(), c.bpp, rr, out.data(), c.size);
				b.destroy(y);
				if (ds != c.size)
					violation("isa:decompress", d + fmt(" consumer=%s: %zd", b.name.c_str(), (ssize_t)ds));
				else if (c.size && memcmp(out.data(), c.data.data(), c.size))
					violation("isa:bytes", d + " consumer=" + b.name);
				else if (out[c.size] != 0xA5)
					violation("isa:overrun", d + " consumer=" + b.name);
				evaluated(hcomb(hcomb(p, q), hcomb(c.bpp, fnv(f.data(), rr))), c.size > 0);
				count("decoded_by_" + b.name);
			}
			if (i < 3)
				sample(d + fmt(" -> %zu bytes decoded by %zu builds", rr, libs.size()));
		}
		maximum("distinct_encodings_of_one_input", seen.size());
	});
}
