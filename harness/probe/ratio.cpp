#include <stenos/cvector.hpp>
float f(const stenos::cvector<int>& v)
{
	return v.compression_ratio() + v.current_compression_ratio();
}
