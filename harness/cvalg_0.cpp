#include "cvalg.hpp"
namespace cv {
uint64_t alg0(Rng& r, AlgCtx& c)
{
	return algorithms<int32_t, 0, 1>(r, c);
}
}
