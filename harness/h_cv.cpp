// P14 (--mode model), P15 (--mode life), P16 (--mode exc): random histories of compressed vectors against std::vector.
#include "cv_engine.hpp"
namespace cv {
uint64_t cfg0(Rng&, Ctx&, size_t);
uint64_t cfg1(Rng&, Ctx&, size_t);
uint64_t cfg2(Rng&, Ctx&, size_t);
uint64_t cfg3(Rng&, Ctx&, size_t);
uint64_t cfg4(Rng&, Ctx&, size_t);
uint64_t cfg5(Rng&, Ctx&, size_t);
uint64_t cfg6(Rng&, Ctx&, size_t);
uint64_t cfg7(Rng&, Ctx&, size_t);
uint64_t cfg8(Rng&, Ctx&, size_t);
uint64_t cfg9(Rng&, Ctx&, size_t);
uint64_t cfg10(Rng&, Ctx&, size_t);
uint64_t cfg11(Rng&, Ctx&, size_t);
uint64_t cfg12(Rng&, Ctx&, size_t);
uint64_t cfg13(Rng&, Ctx&, size_t);
}
using namespace vh;
static const struct {
	const char* name;
	uint64_t (*fn)(Rng&, cv::Ctx&, size_t);
} cfgs[] = {
	{ "cvector<uint8_t,0,1>", cv::cfg0 },
	{ "cvector<uint16_t,1,2>", cv::cfg1 },
	{ "cvector<int32_t,0,1>", cv::cfg2 },
	{ "cvector<uint64_t,2,3>", cv::cfg3 },
	{ "cvector<double,0,0>", cv::cfg4 },
	{ "cvector<P<3>,0,1>", cv::cfg5 },
	{ "cvector<P<12>,1,1>", cv::cfg6 },
	{ "cvector<P<100>,0,4>", cv::cfg7 },
	{ "cvector<T12,0,1>", cv::cfg8 },
	{ "cvector<T24,1,2>", cv::cfg9 },
	{ "cvector<M12,0,1>", cv::cfg10 },
	{ "cvector<std::unique_ptr<int>,0,1>", cv::cfg11 },
	{ "cvector<P<300>,0,1>", cv::cfg12 },
	{ "cvector<T12,2,1>", cv::cfg13 }
};
static const int life_cfgs[] = { 8, 9, 10, 11, 8, 10, 13, 2 };
static const int exc_cfgs[] = { 8, 9, 10, 2, 8, 13, 7, 11 };

// v[i] = v[j] between two temporary references: std::vector copies, see known_findings.txt.
static void assign_between_temporaries()
{
	using namespace cv;
	ledger().reset();
	stenos::cvector<T12> v;
	for (int i = 0; i < 600; ++i)
		v.push_back(T12(i));
	v[3] = v[500];
	if (v[3].get().get() != 500)
		violation("model:assign-between-temporaries", fmt("v[3] = v[500] stores %d", v[3].get().get()));
	if (v[500].get().get() != 500)
		violation("model:prvalue-ref-assign-moves", fmt("v[3] = v[500] with a non trivially movable type moves out of v[500] (now %d)", v[500].get().get()));
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	std::string mode = st().mode;
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		cv::Ctx c;
		c.mode = mode == "life" ? cv::LIFE : mode == "exc" ? cv::EXC : cv::MODEL;
		size_t k = c.mode == cv::LIFE ? (size_t)life_cfgs[r.below(8)] : c.mode == cv::EXC ? (size_t)exc_cfgs[r.below(8)] : r.below(sizeof cfgs / sizeof *cfgs);
		c.name = cfgs[k].name;
		uint64_t sig = cfgs[k].fn(r, c, 10 + r.below(60));
		evaluated(hcomb(sig, k));
		count(fmt("config_%zu", k));
		if (i == 0 && c.mode == cv::MODEL)
			assign_between_temporaries();
		if (i < 3)
			sample(c.name + " " + c.hist.substr(0, 400));
	});
}
