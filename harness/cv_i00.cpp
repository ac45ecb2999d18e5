#include "cv_engine.hpp"
namespace cv {
uint64_t cfg0(Rng& r, Ctx& c, size_t ops)
{
	return history<uint8_t, 0, 1>(r, c, ops);
}
}
