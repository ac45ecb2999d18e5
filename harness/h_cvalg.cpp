// P24: standard algorithms through the iterators of a compressed vector, against the same on std::vector.
#include "cvalg.hpp"
namespace cv {
uint64_t alg0(Rng&, AlgCtx&);
uint64_t alg1(Rng&, AlgCtx&);
uint64_t alg2(Rng&, AlgCtx&);
uint64_t alg3(Rng&, AlgCtx&);
uint64_t alg4(Rng&, AlgCtx&);
uint64_t alg5(Rng&, AlgCtx&);
uint64_t alg6(Rng&, AlgCtx&);
}
int main(int argc, char** argv)
{
	using namespace vh;
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		static const struct {
			const char* name;
			uint64_t (*fn)(Rng&, cv::AlgCtx&);
		} cfgs[] = { { "cvector<int32_t,0,1>", cv::alg0 }, { "cvector<uint8_t,0,1>", cv::alg1 }, { "cvector<P<12>,1,2>", cv::alg2 }, { "cvector<T24,0,1>", cv::alg3 }, { "cvector<M12,0,1>", cv::alg4 }, { "cvector<std::unique_ptr<int>,0,1>", cv::alg5 }, { "cvector<double,2,3>", cv::alg6 } };
		size_t k = r.below(sizeof cfgs / sizeof *cfgs);
		cv::AlgCtx c;
		c.name = cfgs[k].name;
		evaluated(hcomb(cfgs[k].fn(r, c), k));
		count(fmt("config_%zu", k));
		if (i < 3)
			sample(c.name + " " + c.hist.substr(0, 300));
	});
}
