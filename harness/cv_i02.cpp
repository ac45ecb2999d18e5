#include "cv_engine.hpp"
namespace cv {
uint64_t cfg2(Rng& r, Ctx& c, size_t ops)
{
	return history<int32_t, 0, 1>(r, c, ops);
}
}
