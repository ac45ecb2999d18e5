#include "cv_engine.hpp"
namespace cv {
uint64_t cfg11(Rng& r, Ctx& c, size_t ops)
{
	return history<std::unique_ptr<int>, 0, 1>(r, c, ops);
}
}
