#include "cvalg.hpp"
namespace cv {
uint64_t alg6(Rng& r, AlgCtx& c)
{
	return algorithms<double, 2, 3>(r, c);
}
}
