#include "cv_engine.hpp"
namespace cv {
uint64_t cfg6(Rng& r, Ctx& c, size_t ops)
{
	return history<P<12>, 1, 1>(r, c, ops);
}
}
