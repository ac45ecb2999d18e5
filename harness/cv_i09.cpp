#include "cv_engine.hpp"
namespace cv {
uint64_t cfg9(Rng& r, Ctx& c, size_t ops)
{
	return history<T24, 1, 2>(r, c, ops);
}
}
