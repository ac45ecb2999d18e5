#include "cv_engine.hpp"
namespace cv {
uint64_t cfg3(Rng& r, Ctx& c, size_t ops)
{
	return history<uint64_t, 2, 3>(r, c, ops);
}
}
