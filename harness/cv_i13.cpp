#include "cv_engine.hpp"
namespace cv {
uint64_t cfg13(Rng& r, Ctx& c, size_t ops)
{
	return history<T12, 2, 1>(r, c, ops);
}
}
