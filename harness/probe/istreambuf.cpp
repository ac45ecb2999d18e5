#include <sstream>
#include <stenos/cvector.hpp>
void f(stenos::cvector<int>& v, std::istream& s)
{
	v.assign(stenos::istreambuf_iterator<int>(s), stenos::istreambuf_iterator<int>());
	stenos::istreambuf_iterator<int> a(s), b(std::move(a));
	++b;
}
