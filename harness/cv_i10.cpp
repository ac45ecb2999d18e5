#include "cv_engine.hpp"
namespace cv {
uint64_t cfg10(Rng& r, Ctx& c, size_t ops)
{
	return history<M12, 0, 1>(r, c, ops);
}
}
