// Virtual clock: this executable's clock_gettime replaces the C library's for the library under test.
#pragma once
#include "vh.hpp"
#include <sys/syscall.h>

namespace vclock {
typedef uint64_t (*Fn)(clockid_t id); // nanoseconds
inline std::atomic<Fn>& hook()
{
	static std::atomic<Fn> f{ nullptr };
	return f;
}
} // namespace vclock

extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	vclock::Fn f = vclock::hook().load(std::memory_order_acquire);
	if (!f)
		return (int)syscall(SYS_clock_gettime, id, ts);
	uint64_t ns = f(id);
	ts->tv_sec = (time_t)(ns / 1000000000ull);
	ts->tv_nsec = (long)(ns % 1000000000ull);
	return 0;
}
