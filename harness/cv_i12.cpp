#include "cv_engine.hpp"
namespace cv {
uint64_t cfg12(Rng& r, Ctx& c, size_t ops)
{
	return history<P<300>, 0, 1>(r, c, ops);
}
}
