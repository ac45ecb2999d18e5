#include "cvalg.hpp"
namespace cv {
uint64_t alg4(Rng& r, AlgCtx& c)
{
	return algorithms<M12, 0, 1>(r, c);
}
}
