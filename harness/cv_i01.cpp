#include "cv_engine.hpp"
namespace cv {
uint64_t cfg1(Rng& r, Ctx& c, size_t ops)
{
	return history<uint16_t, 1, 2>(r, c, ops);
}
}
