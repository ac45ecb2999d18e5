#include "cvalg.hpp"
namespace cv {
uint64_t alg1(Rng& r, AlgCtx& c)
{
	return algorithms<uint8_t, 0, 1>(r, c);
}
}
