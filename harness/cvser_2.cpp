#include "cvser.hpp"
namespace cvser {
uint64_t rt2(Rng& r, const std::string& s)
{
	return roundtrip<int32_t, 0, 1, 0>(r, "cvector<int32_t,0,1>", s);
}
uint64_t rt5(Rng& r, const std::string& s)
{
	return roundtrip<P<12>, 1, 1, 2>(r, "cvector<P<12>,1,1>", s);
}
uint64_t rt8(Rng& r, const std::string& s)
{
	return roundtrip<P<300>, 0, 1, 0>(r, "cvector<P<300>,0,1>", s);
}
uint64_t rt11(Rng& r, const std::string& s)
{
	return roundtrip<P<17>, 3, 2, 2>(r, "cvector<P<17>,3,2>", s);
}
}
