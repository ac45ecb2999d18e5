#include <memory>
#include <stenos/cvector.hpp>
size_t f(stenos::cvector<int>& v)
{
	auto g = [](int& x) { return ++x < 10; };
	return v.for_each(0, v.size(), g) + v.for_each_backward(0, v.size(), g);
}
size_t g(const stenos::cvector<std::unique_ptr<int>>& v)
{
	auto g = [](const std::unique_ptr<int>& x) { return !x; };
	return v.for_each(0, v.size(), g) + v.for_each_backward(0, v.size(), g);
}
