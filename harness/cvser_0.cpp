#include "cvser.hpp"
namespace cvser {
uint64_t rt0(Rng& r, const std::string& s)
{
	return roundtrip<uint8_t, 0, 1, 3>(r, "cvector<uint8_t,0,1>", s);
}
uint64_t rt3(Rng& r, const std::string& s)
{
	return roundtrip<double, 2, 2, 1>(r, "cvector<double,2,2>", s);
}
uint64_t rt6(Rng& r, const std::string& s)
{
	return roundtrip<P<100>, 0, 4, 1>(r, "cvector<P<100>,0,4>", s);
}
uint64_t rt9(Rng& r, const std::string& s)
{
	return roundtrip<uint64_t, 4, 1, 5>(r, "cvector<uint64_t,4,1>", s);
}
}
