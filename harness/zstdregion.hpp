// libzstd is not instrumented: what it is allowed to read and write is checked at the call, against the shadow memory of ASan.
// Link with ZSTD_REGION_WRAP (tools/units.py).
#pragma once
#include "vh.hpp"
#include <zstd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif
namespace zregion {
inline bool check(const char* what, const void* p, size_t n)
{
#if defined(__SANITIZE_ADDRESS__)
	if (!n)
		return true;
	void* bad = __asan_region_is_poisoned(const_cast<void*>(p), n);
	if (bad) {
		vh::violation("zstd:region", vh::fmt("libzstd is given %s of %zu bytes, of which only %zu are addressable", what, n, (size_t)((char*)bad - (char*)p)));
		return false;
	}
#else
	(void)what, (void)p, (void)n;
#endif
	vh::count("zstd_regions_checked");
	return true;
}
} // namespace zregion
extern "C" {
__attribute__((weak)) size_t __real_ZSTD_decompress(void*, size_t, const void*, size_t);
__attribute__((weak)) size_t __real_ZSTD_decompressDCtx(ZSTD_DCtx*, void*, size_t, const void*, size_t);
size_t __wrap_ZSTD_decompress(void* dst, size_t room, const void* src, size_t n)
{
	if (!zregion::check("a destination", dst, room) || !zregion::check("a source", src, n))
		return (size_t)-70; // as ZSTD_error_dstSize_tooSmall: do not corrupt the memory
	return __real_ZSTD_decompress(dst, room, src, n);
}
size_t __wrap_ZSTD_decompressDCtx(ZSTD_DCtx* c, void* dst, size_t room, const void* src, size_t n)
{
	if (!zregion::check("a destination", dst, room) || !zregion::check("a source", src, n))
		return (size_t)-70; // as ZSTD_error_dstSize_tooSmall: do not corrupt the memory
	return __real_ZSTD_decompressDCtx(c, dst, room, src, n);
}
}
