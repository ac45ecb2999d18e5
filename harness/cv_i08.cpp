#include "cv_engine.hpp"
namespace cv {
uint64_t cfg8(Rng& r, Ctx& c, size_t ops)
{
	return history<T12, 0, 1>(r, c, ops);
}
}
