// Buffers next to inaccessible pages: any access outside the buffer on that side faults.
#pragma once
#include "vh.hpp"
namespace vh {
class Guard
{
	uint8_t* base = nullptr;
	size_t cap = 0, map = 0;

public:
	Guard() {}
	Guard(const Guard&) = delete;
	~Guard()
	{
		if (base)
			munmap(base, map);
	}
	void reserve(size_t n)
	{
		size_t c = (n + 4095) / 4096 * 4096 + 4096;
		if (c <= cap)
			return;
		if (base)
			munmap(base, map);
		c *= 2;
		map = c + 8192;
		base = (uint8_t*)mmap(nullptr, map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (base == MAP_FAILED || mprotect(base + 4096, c, PROT_READ | PROT_WRITE)) {
			perror("mmap");
			_exit(3);
		}
		cap = c;
	}
	// n bytes ending at the upper guard page
	uint8_t* high(size_t n)
	{
		reserve(n);
		return base + 4096 + cap - n;
	}
	// n bytes starting after the lower guard page
	uint8_t* low(size_t n)
	{
		reserve(n);
		return base + 4096;
	}
	size_t capacity() const { return cap; }
	uint8_t* begin() const { return base + 4096; }
};

// Fill a part of the stack below the caller with a pattern.
__attribute__((noinline)) inline void paint_stack(uint8_t v, size_t n = 96 * 1024)
{
	volatile uint8_t* p = (volatile uint8_t*)__builtin_alloca(n);
	for (size_t i = 0; i < n; ++i)
		p[i] = v;
	__asm__ volatile("" ::"r"(p) : "memory");
}
inline bool documented_error(size_t r)
{
	return r >= (size_t)-9; // STENOS_ERROR_UNDEFINED (-1) .. STENOS_ERROR_INVALID_PARAMETER (-9)
}
} // namespace vh
