// Schedule perturbation for native builds: mutex and condition operations of the whole process get random delays.
#pragma once
#include "vh.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
namespace perturb {
static std::atomic<unsigned> level{ 0 }; // 0: off, else 1/level operations are delayed
static std::atomic<uint64_t> delays{ 0 };
static std::atomic<uint64_t> rng{ 12345 };
inline void maybe()
{
	unsigned l = level.load(std::memory_order_relaxed);
	if (!l)
		return;
	static thread_local uint64_t s = 0;
	if (!s)
		s = vh::mix(rng.fetch_add(0x9E3779B97F4A7C15ull)) | 1;
	s = s * 6364136223846793005ull + 1442695040888963407ull;
	unsigned v = (unsigned)(s >> 33);
	if (v % l)
		return;
	delays.fetch_add(1, std::memory_order_relaxed);
	v /= l;
	if (v & 1)
		sched_yield();
	else if (v & 2) {
		for (volatile unsigned k = 0; k < (v >> 4) % 3000; k = k + 1) {
		}
	}
	else {
		struct timespec ts = { 0, (long)((v >> 4) % 60000) };
		nanosleep(&ts, nullptr);
	}
}
}
#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__)
#define VH_REAL(ret, name, args, call)                                                                                                                                                                 \
	extern "C" ret name args                                                                                                                                                                       \
	{                                                                                                                                                                                              \
		typedef ret(*F) args;                                                                                                                                                                  \
		static F f = (F)dlsym(RTLD_NEXT, #name);                                                                                                                                               \
		perturb::maybe();                                                                                                                                                                      \
		ret r = f call;                                                                                                                                                                        \
		perturb::maybe();                                                                                                                                                                      \
		return r;                                                                                                                                                                              \
	}
VH_REAL(int, pthread_mutex_lock, (pthread_mutex_t * m), (m))
VH_REAL(int, pthread_mutex_unlock, (pthread_mutex_t * m), (m))
VH_REAL(int, pthread_cond_signal, (pthread_cond_t * c), (c))
VH_REAL(int, pthread_cond_broadcast, (pthread_cond_t * c), (c))
#endif
