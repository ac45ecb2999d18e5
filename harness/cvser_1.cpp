#include "cvser.hpp"
namespace cvser {
uint64_t rt1(Rng& r, const std::string& s)
{
	return roundtrip<uint16_t, 1, 0, 1>(r, "cvector<uint16_t,1,0>", s);
}
uint64_t rt4(Rng& r, const std::string& s)
{
	return roundtrip<P<3>, 0, 3, 1>(r, "cvector<P<3>,0,3>", s);
}
uint64_t rt7(Rng& r, const std::string& s)
{
	return roundtrip<P<128>, 2, 1, 2>(r, "cvector<P<128>,2,1>", s);
}
uint64_t rt10(Rng& r, const std::string& s)
{
	return roundtrip<int32_t, 9, 1, 1>(r, "cvector<int32_t,9,1>", s);
}
}
