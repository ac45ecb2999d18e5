// Wraps the compiler's <cpuid.h>: hides CPU features from the run-time detection of the library (VH_HIDE_* defines).
#pragma once
#include_next <cpuid.h>
#ifdef __cpuid_count
static inline void vh_cpuid_count(unsigned leaf, unsigned sub, unsigned* r)
{
	unsigned a, b, c, d;
	__cpuid_count(leaf, sub, a, b, c, d);
	if (leaf == 1) {
#ifdef VH_HIDE_SSE41
		c &= ~(1u << 19 | 1u << 20); // SSE4.1, SSE4.2
#endif
#ifdef VH_HIDE_SSE2
		d &= ~(1u << 26);
		c &= ~(1u << 0 | 1u << 9); // SSE3, SSSE3
#endif
	}
	if (leaf == 7) {
#ifdef VH_HIDE_AVX2
		b &= ~(1u << 5 | 1u << 16);
#endif
#ifdef VH_HIDE_BMI2
		b &= ~(1u << 3 | 1u << 8);
#endif
	}
	r[0] = a;
	r[1] = b;
	r[2] = c;
	r[3] = d;
}
#undef __cpuid_count
#define __cpuid_count(leaf, sub, a, b, c, d)                                                                                                                                                          \
	do {                                                                                                                                                                                           \
		unsigned vh_r[4];                                                                                                                                                                       \
		vh_cpuid_count((unsigned)(leaf), (unsigned)(sub), vh_r);                                                                                                                                \
		(a) = vh_r[0];                                                                                                                                                                          \
		(b) = vh_r[1];                                                                                                                                                                          \
		(c) = vh_r[2];                                                                                                                                                                          \
		(d) = vh_r[3];                                                                                                                                                                          \
	} while (0)
#endif
