#include "cv_engine.hpp"
namespace cv {
uint64_t cfg5(Rng& r, Ctx& c, size_t ops)
{
	return history<P<3>, 0, 1>(r, c, ops);
}
}
