#include <stenos/cvector.hpp>
int f(const stenos::cvector<int>& v)
{
	int s = 0;
	for (auto it = v.rbegin(); it != v.rend(); ++it)
		s += *it;
	return s + (int)(v.crend() - v.crbegin());
}
