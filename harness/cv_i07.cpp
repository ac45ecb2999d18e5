#include "cv_engine.hpp"
namespace cv {
uint64_t cfg7(Rng& r, Ctx& c, size_t ops)
{
	return history<P<100>, 0, 4>(r, c, ops);
}
}
