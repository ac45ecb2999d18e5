// P18: serialization round trips, and interoperates with the plain codec.
#include "cvser.hpp"
namespace cvser {
uint64_t rt0(Rng&, const std::string&);
uint64_t rt1(Rng&, const std::string&);
uint64_t rt2(Rng&, const std::string&);
uint64_t rt3(Rng&, const std::string&);
uint64_t rt4(Rng&, const std::string&);
uint64_t rt5(Rng&, const std::string&);
uint64_t rt6(Rng&, const std::string&);
uint64_t rt7(Rng&, const std::string&);
uint64_t rt8(Rng&, const std::string&);
uint64_t rt9(Rng&, const std::string&);
uint64_t rt10(Rng&, const std::string&);
uint64_t rt11(Rng&, const std::string&);
}
int main(int argc, char** argv)
{
	using namespace vh;
	using namespace cvser;
	static uint64_t (*const f[])(Rng&, const std::string&) = { rt0, rt1, rt2, rt3, rt4, rt5, rt6, rt7, rt8, rt9, rt10, rt11 };
	parse_args(argc, argv);
	const std::string scratch = opt("scratch", "/tmp");
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		size_t k = r.below(sizeof f / sizeof *f);
		uint64_t s = f[k](r, scratch);
		if (s)
			evaluated(s);
		count(fmt("config_%zu", k));
		if (i < 5)
			sample(fmt("case %llu of configuration %zu", (unsigned long long)i, k) + (st().status ? std::string(": ") + st().status : std::string()));
	});
}
