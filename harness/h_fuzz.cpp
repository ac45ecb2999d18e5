// P04 / P19 (thorough): libFuzzer explores decoding with coverage feedback, from a corpus of real and forged frames and with the
// structural mutations of mutate.hpp besides its own.  Number of executions fixed; the oracle is the one of h_hostile / h_cvhostile.
#include "cvser.hpp"
#include "mutate.hpp"
#include <memory>
#include <sys/stat.h>
using namespace vh;

extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));
extern "C" size_t LLVMFuzzerMutate(uint8_t* d, size_t n, size_t max);

static bool cvmode = false;
static std::string corpus;
static const size_t bpps[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 20, 23, 24, 27, 31, 32, 33, 36, 40, 47, 48, 56, 63, 64, 65, 100, 130 };

static uint64_t announced(const uint8_t* f, size_t n)
{
	uint64_t a = 0;
	for (int q = 6; q >= 0 && n >= 8; --q)
		a = a << 8 | f[1 + q];
	return a;
}

// input: element size selector, destination selector, frame
static int plain(const uint8_t* d, size_t n)
{
	size_t bpp = bpps[d[0] & 31];
	int th = (d[1] & 0x30) == 0x30 ? 3 : 1;
	const uint8_t* f = d + 2;
	n -= 2;
	uint64_t a = announced(f, n);
	size_t on = a > 300000 ? 70000 : (size_t)a;
	switch (d[1] & 7) {
		case 1: on += 33; break;
		case 2: on -= on / 3; break;
		default: break;
	}
	std::unique_ptr<uint8_t[]> in(new uint8_t[n]), out(new uint8_t[on]);
	memcpy(in.get(), f, n);
	static stenos_context* ctx = stenos_make_context();
	stenos_set_threads(ctx, th);
	stenos_info info = { 0, 0 };
	size_t hi = stenos_get_info(in.get(), bpp, n, &info);
	size_t r = stenos_decompress_generic(ctx, in.get(), bpp, n, out.get(), on);
	if (stenos_has_error(r))
		count("fuzz_rejected");
	else {
		if (r > on || r != a)
			violation("hostile:size", fmt("fuzzing: bpp=%zu returned %zu, announced %llu", bpp, r, (unsigned long long)a));
		if (!stenos_has_error(hi) && info.decompressed_size != r)
			violation("hostile:info", fmt("fuzzing: info says %zu, decompression %zu", info.decompressed_size, r));
		count("fuzz_decoded");
	}
	evaluated(hcomb(fnv(f, n), r), n > 8);
	return 0;
}
template<class T, unsigned BS, int L>
static int one_cv(const uint8_t* f, size_t n)
{
	using V = stenos::cvector<T, BS, L, cv::TAlloc<T>>;
	size_t r;
	{
		V v(cv::TAlloc<T>(0));
		v.resize(3);
		std::unique_ptr<uint8_t[]> in(new uint8_t[n]);
		memcpy(in.get(), f, n);
		r = v.deserialize((const char*)in.get(), n);
		if (stenos_has_error(r)) {
			if (v.size())
				violation("hostile:left", fmt("fuzzing: %zu elements left after a failed deserialization", v.size()));
			count("fuzz_cv_rejected");
			v.push_back(T());
			if (v.size() != 1)
				violation("hostile:reuse", "fuzzing: not usable after a failed deserialization");
		}
		else {
			if (v.size() != r)
				violation("hostile:size", fmt("fuzzing: returned %zu, %zu elements", r, v.size()));
			count("fuzz_cv_accepted");
		}
	}
	if (!cv::arena(0).error.empty())
		violation(cv::arena(0).key, "fuzzing: " + cv::arena(0).error);
	if (!cv::arena(0).blocks.empty())
		violation("life:leaked-memory", fmt("fuzzing: %zu blocks left", cv::arena(0).blocks.size()));
	cv::arena(0).reset();
	evaluated(hcomb(fnv(f, n), r), n > 8);
	return 0;
}
static int one(const uint8_t* d, size_t n)
{
	if (n < 2 || too_many())
		return 0;
	touch();
	if (!cvmode)
		return plain(d, n);
	switch (d[0] & 3) {
		case 0: return one_cv<uint8_t, 0, 1>(d + 2, n - 2);
		case 1: return one_cv<uint16_t, 1, 1>(d + 2, n - 2);
		case 2: return one_cv<uint64_t, 0, 1>(d + 2, n - 2);
		default: return one_cv<cv::P<12>, 0, 1>(d + 2, n - 2);
	}
}
static size_t cv_bpp(uint8_t s)
{
	static const size_t b[] = { 1, 2, 8, 12 };
	return b[s & 3];
}
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* d, size_t n, size_t max, unsigned seed)
{
	Rng r(seed, 5);
	if (n < 10 || r.chance(1, 2))
		return LLVMFuzzerMutate(d, n, max);
	gen::Bytes g(d + 2, d + n);
	mut::mutate(r, g, cvmode ? cv_bpp(d[0]) : bpps[d[0] & 31]);
	if (r.chance(1, 40))
		d[1] = r.u8();
	size_t m = g.size() < max - 2 ? g.size() : max - 2;
	memcpy(d + 2, g.data(), m);
	return m + 2;
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	State& s = st();
	cvmode = s.mode == "cv";
	start_watchdog(200);
	corpus = opt("scratch", "/tmp") + fmt("/corpus-%s-%u", cvmode ? "cv" : "plain", s.shard);
	mkdir(corpus.c_str(), 0755);
	Rng r(s.seed, s.shard, 900 + cvmode);
	for (int k = 0; k < 300; ++k) {
		gen::Bytes f;
		uint8_t sel = (uint8_t)r.u8();
		size_t bpp = cvmode ? cv_bpp(sel) : bpps[sel & 31], size = 0;
		if (r.chance(1, 2))
			f = mut::forge(r, bpp, size);
		else {
			gen::Case c = gen::make(r, 6000);
			gen::Bytes data(c.data);
			size_t e = data.size() / bpp * bpp;
			data.resize(e);
			gen::fill(r, data.data(), e, bpp, c.kind);
			f = mut::compress(data, bpp, c.level > 5 ? 2 : c.level, cvmode || r.chance(1, 3) ? (cvmode && (sel & 3) == 1 ? 1 : 0) : STENOS_NO_BLOCK_SHIFT);
		}
		if (f.size() > 8000)
			continue;
		std::string p = corpus + fmt("/s%d", k);
		if (FILE* o = fopen(p.c_str(), "wb")) {
			fputc(sel, o);
			fputc(r.chance(1, 2) ? 0 : r.u8(), o);
			fwrite(f.data(), 1, f.size(), o);
			fclose(o);
		}
	}
	note("fuzzing");
	static std::vector<std::string> a = { argv[0], fmt("-runs=%llu", (unsigned long long)(s.cases / s.nshards)), fmt("-seed=%llu", (unsigned long long)(s.seed * 100 + s.shard + 1)), "-max_len=9000", "-len_control=0", "-timeout=150", "-rss_limit_mb=6000",
		"-print_final_stats=0", "-verbosity=0", "-artifact_prefix=" + corpus + "-", "-handle_abrt=0", "-handle_int=0", "-handle_term=0", "-handle_segv=0", "-handle_bus=0", "-handle_fpe=0", "-handle_ill=0", "-detect_leaks=0", corpus };
	std::vector<char*>* av = new std::vector<char*>;
	for (auto& x : a)
		av->push_back(&x[0]);
	atexit([]() {
		size_t k = 0;
		if (DIR* d = opendir(corpus.c_str())) {
			while (dirent* e = readdir(d))
				k += e->d_name[0] != '.';
			closedir(d);
		}
		count("fuzz_corpus_units", k);
		note("end");
		write_out();
	});
	int n = (int)av->size();
	char** v = av->data();
	return LLVMFuzzerRunDriver(&n, &v, one);
}
