#include "cvalg.hpp"
namespace cv {
uint64_t alg2(Rng& r, AlgCtx& c)
{
	return algorithms<P<12>, 1, 2>(r, c);
}
}
