// Allocation failure injection.  Native builds replace the C library's entry points for the whole process (libzstd included);
// sanitized builds link with --wrap, which covers the library under test and the harness, and keep the sanitizer's allocator.
#pragma once
#include "vh.hpp"
#include <link.h>
#include <new>

namespace af {
struct State {
	std::atomic<int> armed{ 0 };
	std::atomic<uint64_t> seen{ 0 }, failed{ 0 };
	std::atomic<uint64_t> at{ 0 };   // ordinal of the first failure (1-based)
	std::atomic<uint64_t> until{ 0 }; // ordinal of the last one
	std::atomic<uint64_t> min_size{ 0 };
};
inline State& s()
{
	static State* x = [] {
		alignas(State) static char b[sizeof(State)];
		return new (b) State;
	}();
	return *x;
}
// true: this allocation must fail
inline bool hit(size_t n)
{
	State& x = s();
	if (!x.armed.load(std::memory_order_relaxed) || vh::exempt())
		return false;
	if (n < x.min_size.load(std::memory_order_relaxed))
		return false;
	uint64_t k = x.seen.fetch_add(1) + 1;
	if (k < x.at.load() || k > x.until.load())
		return false;
	x.failed++;
	return true;
}
// Allocations of the C library itself are left alone: some (registering the destructor of a thread_local) end the process.
struct Range {
	uintptr_t a = 0, b = 0;
};
inline int find_libc(struct dl_phdr_info* i, size_t, void* p)
{
	if (i->dlpi_name && strstr(i->dlpi_name, "libc.so"))
		for (int k = 0; k < i->dlpi_phnum; ++k)
			if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
				((Range*)p)->a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
				((Range*)p)->b = ((Range*)p)->a + i->dlpi_phdr[k].p_memsz;
			}
	return 0;
}
static Range libc_range;
__attribute__((constructor)) static void init_libc_range()
{
	dl_iterate_phdr(&find_libc, &libc_range);
}
inline bool hit_from(size_t n, void* caller)
{
	if (!s().armed.load(std::memory_order_relaxed))
		return false;
	uintptr_t c = (uintptr_t)caller;
	if (c >= libc_range.a && c < libc_range.b)
		return false;
	return hit(n);
}
inline void arm(uint64_t at, uint64_t until)
{
	s().seen = 0;
	s().failed = 0;
	s().at = at;
	s().until = until;
	s().armed = 1;
}
inline uint64_t disarm()
{
	s().armed = 0;
	return s().seen.load();
}
} // namespace af

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n)
{
	return af::hit(n) ? nullptr : __real_malloc(n);
}
void* __wrap_calloc(size_t a, size_t b)
{
	return af::hit(a * b) ? nullptr : __real_calloc(a, b);
}
void* __wrap_realloc(void* p, size_t n)
{
	return af::hit(n) ? nullptr : __real_realloc(p, n);
}
void* __wrap_aligned_alloc(size_t a, size_t n)
{
	return af::hit(n) ? nullptr : __real_aligned_alloc(a, n);
}
int __wrap_posix_memalign(void** p, size_t a, size_t n)
{
	return af::hit(n) ? ENOMEM : __real_posix_memalign(p, a, n);
}
}
void* operator new(size_t n)
{
	void* p = af::hit(n) ? nullptr : __real_malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n)
{
	return operator new(n);
}
void operator delete(void* p) noexcept
{
	free(p);
}
void operator delete[](void* p) noexcept
{
	free(p);
}
void operator delete(void* p, size_t) noexcept
{
	free(p);
}
void operator delete[](void* p, size_t) noexcept
{
	free(p);
}
#else
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n)
{
	if (af::hit_from(n, __builtin_return_address(0))) {
		errno = ENOMEM;
		return nullptr;
	}
	return __libc_malloc(n);
}
void* calloc(size_t a, size_t b)
{
	if (af::hit_from(a * b, __builtin_return_address(0))) {
		errno = ENOMEM;
		return nullptr;
	}
	return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n)
{
	if (af::hit_from(n, __builtin_return_address(0))) {
		errno = ENOMEM;
		return nullptr;
	}
	return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n)
{
	return af::hit_from(n, __builtin_return_address(0)) ? nullptr : __libc_memalign(a, n);
}
void* aligned_alloc(size_t a, size_t n)
{
	return af::hit_from(n, __builtin_return_address(0)) ? nullptr : __libc_memalign(a, n);
}
int posix_memalign(void** p, size_t a, size_t n)
{
	void* x = af::hit_from(n, __builtin_return_address(0)) ? nullptr : __libc_memalign(a, n);
	if (!x)
		return ENOMEM;
	*p = x;
	return 0;
}
}
#endif
