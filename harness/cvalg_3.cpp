#include "cvalg.hpp"
namespace cv {
uint64_t alg3(Rng& r, AlgCtx& c)
{
	return algorithms<T24, 0, 1>(r, c);
}
}
