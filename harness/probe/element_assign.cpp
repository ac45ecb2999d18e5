#include <algorithm>
#include <stenos/cvector.hpp>
void f(stenos::cvector<int>& v)
{
	auto a = v[0], b = v[1];
	a = b;
	*v.begin() = *(v.begin() + 1);
	std::copy(v.begin() + 1, v.end(), v.begin());
	std::copy_backward(v.begin(), v.end() - 1, v.end());
}
