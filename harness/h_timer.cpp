// P21: elapsed times against an interposed monotonic clock.
#include "vclock.hpp"
#include "gen.hpp"
#include <memory>
#include <stenos/stenos.h>
#include <stenos/timer.hpp>
using namespace vh;

namespace {
std::atomic<uint64_t> mono{ 0 }, other{ 0 };
std::atomic<uint64_t> reads{ 0 };
uint64_t read_clock(clockid_t id)
{
	reads++;
	if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME)
		return mono.load();
	return other.fetch_add(other.load() % 977 + 1); // any other clock: unrelated readings
}
const uint64_t G = 1000000000ull;
// readings concentrated around second boundaries
uint64_t pick_ns(Rng& r)
{
	static const uint64_t edge[] = { 0, 1, 2, 999999999, 999999998, 500000000, 499999999, 1000, 999999000 };
	return r.chance(1, 2) ? edge[r.below(9)] : r.below(G);
}
} // namespace

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		struct T {
			stenos_timer* c;
			std::unique_ptr<stenos::timer> p;
			uint64_t start = 0, last = 0;
			bool ticked = false;
		};
		std::vector<T> ts(r.range(1, 6));
		for (auto& t : ts) {
			if (r.chance(1, 2)) {
				t.c = stenos_make_timer();
				if (!t.c)
					violation("timer:make", "null timer");
			}
			else {
				t.c = nullptr;
				t.p.reset(new stenos::timer);
			}
		}
		uint64_t now = (r.chance(1, 4) ? r.below(3) : r.below(1ull << r.range(1, 33))) * G + pick_ns(r);
		mono = now;
		other = r.u64() >> 8;
		note(fmt("timers=%zu start=%llu", ts.size(), (unsigned long long)now));
		vclock::hook().store(&read_clock);
		unsigned ops = (unsigned)r.range(2, 40);
		for (unsigned k = 0; k < ops; ++k) {
			// the clock advances
			switch (r.below(7)) {
				case 0: break;
				case 1: now += r.below(10); break;
				case 2: now += r.below(G); break;
				case 3: now = (now / G + r.below(3)) * G + pick_ns(r) + G; break;
				case 4: now += r.below(10) * G; break;
				case 5: now += r.below(1ull << r.range(1, 50)); break;
				default: now += G - now % G - r.below(2); // just before or at a second boundary
			}
			if (now < mono.load())
				now = mono.load();
			mono = now;
			T& t = ts[r.below(ts.size())];
			if (!t.ticked || r.chance(1, 5)) {
				t.c ? stenos_tick(t.c) : t.p->tick();
				t.start = now;
				t.last = 0;
				t.ticked = true;
			}
			else {
				uint64_t e = t.c ? stenos_tock(t.c) : t.p->tock();
				uint64_t want = now - t.start;
				vclock::hook().store(nullptr);
				if (e != want)
					violation("timer:elapsed", fmt("%s timer: ticked at %llu ns, read at %llu ns: elapsed %llu instead of %llu", t.c ? "C" : "C++", (unsigned long long)t.start, (unsigned long long)now,
								       (unsigned long long)e, (unsigned long long)want));
				if (e < t.last)
					violation("timer:decreasing", fmt("elapsed time went from %llu to %llu", (unsigned long long)t.last, (unsigned long long)e));
				t.last = e;
				if (t.start % G > now % G)
					count("borrows"); // nanosecond field of the end below the one of the start
				if (want % G == 0 && want)
					count("whole_seconds");
				evaluated(hcomb(hcomb(t.start, now), t.c != nullptr), want != 0);
				if (i < 3)
					sample(fmt("start %llu end %llu elapsed %llu", (unsigned long long)t.start, (unsigned long long)now, (unsigned long long)e));
				vclock::hook().store(&read_clock);
			}
		}
		vclock::hook().store(nullptr);
		for (auto& t : ts)
			if (t.c)
				stenos_destroy_timer(t.c);
		// the real clock: never decreasing, consistent with the system's
		if (i % 16 == 0) {
			stenos::timer t;
			stenos_timer* c = stenos_make_timer();
			struct timespec a, b;
			syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &a);
			t.tick();
			stenos_tick(c);
			uint64_t last = 0, lastc = 0, max;
			for (int k = 0; k < 2000; ++k) {
				uint64_t e = t.tock(), f = stenos_tock(c);
				if (e < last || f < lastc) {
					violation("timer:real-decreasing", fmt("real elapsed time went from %llu/%llu to %llu/%llu", (unsigned long long)last, (unsigned long long)lastc, (unsigned long long)e, (unsigned long long)f));
					break;
				}
				last = e;
				lastc = f;
			}
			syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &b);
			max = (uint64_t)(b.tv_sec - a.tv_sec) * G + (uint64_t)b.tv_nsec - (uint64_t)a.tv_nsec;
			if (last > max || lastc > max)
				violation("timer:real-bound", fmt("elapsed %llu/%llu in an interval of %llu ns", (unsigned long long)last, (unsigned long long)lastc, (unsigned long long)max));
			count("real_clock_runs");
			stenos_destroy_timer(c);
		}
		count("clock_readings", reads.exchange(0));
	});
}
