#include <stenos/cvector.hpp>
int f()
{
	stenos::cvector<int> v;
	v.push_back(1);
	const auto& c = v;
	return c[0] + (int)c.size();
}
