#include "cvalg.hpp"
namespace cv {
uint64_t alg5(Rng& r, AlgCtx& c)
{
	return algorithms<std::unique_ptr<int>, 0, 1>(r, c);
}
}
