#include "cv_engine.hpp"
namespace cv {
uint64_t cfg4(Rng& r, Ctx& c, size_t ops)
{
	return history<double, 0, 0>(r, c, ops);
}
}
