// Common runtime of every monitor harness: arguments, deterministic case numbering, violations, coverage, watchdog, output.
#pragma once
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace vh {

// ---------------------------------------------------------------- random numbers
inline uint64_t mix(uint64_t z)
{
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t a = 1, uint64_t b = 0, uint64_t c = 0) : s(mix(mix(mix(a) ^ b) ^ (c * 0x9E3779B97F4A7C15ull))) {}
	uint64_t u64()
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint32_t u32() { return (uint32_t)(u64() >> 32); }
	uint8_t u8() { return (uint8_t)(u64() >> 40); }
	size_t below(size_t n) { return n ? (size_t)(u64() % n) : 0; }
	size_t range(size_t a, size_t b) { return a + below(b - a + 1); } // inclusive
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	double unit() { return (double)(u64() >> 11) / 9007199254740992.0; }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const uint8_t* s = (const uint8_t*)p;
	for (size_t i = 0; i < n; ++i)
		h = (h ^ s[i]) * 1099511628211ull;
	return h;
}
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix(a * 31 + b); }

// ---------------------------------------------------------------- state
struct State {
	uint64_t seed = 1;
	unsigned shard = 0, nshards = 1;
	uint64_t cases = 100;
	int64_t only = -1;
	bool thorough = false;
	std::string out, mode;
	std::map<std::string, std::string> opt;
	uint64_t evaluations = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, uint64_t> counters;
	std::vector<std::string> samples;
	struct Viol {
		std::string key, msg;
		uint64_t cas;
	};
	std::vector<Viol> viols;
	uint64_t viol_count = 0;
	std::mutex m;
	std::atomic<uint64_t> progress{ 0 };
	std::atomic<uint64_t> cur_case{ 0 };
	char* status = nullptr; // mmapped file with the current case, read by the driver after a crash
	double t0 = 0;
};
// Set in the monitor's own threads: fault injection leaves them alone.
inline bool& exempt()
{
	static thread_local bool e = false;
	return e;
}
inline State& st()
{
	static State* s = new State; // never destroyed
	return *s;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
	char b[2048];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof b, f, a);
	va_end(a);
	return b;
}
inline std::string jesc(const std::string& s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			r += '\\', r += (char)c;
		else if (c < 32 || c > 126)
			r += fmt("\\u%04x", c);
		else
			r += (char)c;
	}
	return r;
}
inline void touch() { st().progress.fetch_add(1, std::memory_order_relaxed); }

// Description of what is being executed now (survives a crash of the process).
inline void note(const std::string& what)
{
	State& s = st();
	touch();
	if (s.status) {
		std::string t = fmt("%llu ", (unsigned long long)s.cur_case.load()) + what;
		size_t n = t.size() < 4000 ? t.size() : 4000;
		memcpy(s.status, t.data(), n);
		s.status[n] = 0;
	}
}
inline void violation(const std::string& key, const std::string& msg)
{
	State& s = st();
	std::lock_guard<std::mutex> l(s.m);
	s.viol_count++;
	if (s.viols.size() < 40)
		s.viols.push_back(State::Viol{ key, msg, s.cur_case.load() });
}
inline bool too_many() { return st().viol_count >= 40; }
inline void count(const std::string& k, uint64_t n = 1)
{
	State& s = st();
	std::lock_guard<std::mutex> l(s.m);
	s.counters[k] += n;
}
inline void maximum(const std::string& k, uint64_t n)
{
	State& s = st();
	std::lock_guard<std::mutex> l(s.m);
	uint64_t& v = s.counters["max:" + k];
	if (n > v)
		v = n;
}
// One evaluated execution, identified by the signature of what was observed in it.
inline void evaluated(uint64_t signature, bool nontrivial = true)
{
	State& s = st();
	std::lock_guard<std::mutex> l(s.m);
	s.evaluations++;
	if (nontrivial)
		s.distinct.insert(signature);
}
inline void sample(const std::string& t)
{
	State& s = st();
	std::lock_guard<std::mutex> l(s.m);
	if (s.samples.size() < 6)
		s.samples.push_back(t);
}

// ---------------------------------------------------------------- watchdog
// exit 97: every thread of the process asleep for long (deadlock: certain); exit 98: no progress (inconclusive).
inline void start_watchdog(unsigned limit_s)
{
	std::thread([limit_s]() {
		exempt() = true;
		State& s = st();
		uint64_t last = s.progress.load();
		unsigned idle = 0, asleep = 0;
		int self = (int)gettid();
		while (true) {
			struct timespec ts = { 1, 0 };
			nanosleep(&ts, nullptr);
			uint64_t p = s.progress.load();
			if (p != last) {
				last = p;
				idle = asleep = 0;
				continue;
			}
			++idle;
			bool all = true;
			if (DIR* d = opendir("/proc/self/task")) {
				while (dirent* e = readdir(d)) {
					int t = atoi(e->d_name);
					if (t <= 0 || t == self)
						continue;
					char path[64], b[512];
					snprintf(path, sizeof path, "/proc/self/task/%d/stat", t);
					int fd = open(path, O_RDONLY);
					if (fd < 0)
						continue;
					ssize_t n = read(fd, b, sizeof b - 1);
					close(fd);
					if (n <= 0)
						continue;
					b[n] = 0;
					const char* c = strrchr(b, ')');
					if (c && c[1] && c[2] != 'S')
						all = false;
				}
				closedir(d);
			}
			asleep = all ? asleep + 1 : 0;
			if (asleep >= 45) {
				dprintf(2, "\nVH-DEADLOCK case=%llu %s\n", (unsigned long long)s.cur_case.load(), s.status ? s.status : "");
				_exit(97);
			}
			if (idle >= limit_s) {
				dprintf(2, "\nVH-NOPROGRESS case=%llu %s\n", (unsigned long long)s.cur_case.load(), s.status ? s.status : "");
				_exit(98);
			}
		}
	}).detach();
}

inline double now()
{
	return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count();
}

inline void write_out()
{
	State& s = st();
	std::lock_guard<std::mutex> l(s.m);
	if (s.out.empty()) {
		for (auto& v : s.viols)
			printf("violation case=%llu key=%s %s\n", (unsigned long long)v.cas, v.key.c_str(), v.msg.c_str());
		printf("evaluations=%llu distinct=%zu violations=%llu\n", (unsigned long long)s.evaluations, s.distinct.size(), (unsigned long long)s.viol_count);
		for (auto& c : s.counters)
			printf("  %s=%llu\n", c.first.c_str(), (unsigned long long)c.second);
		for (auto& c : s.samples)
			printf("  sample: %s\n", c.c_str());
		return;
	}
	std::string tmp = s.out + ".tmp";
	FILE* f = fopen(tmp.c_str(), "w");
	if (!f) {
		perror("out");
		_exit(3);
	}
	fprintf(f, "{\"evaluations\":%llu,\"violation_count\":%llu,\"distinct\":[", (unsigned long long)s.evaluations, (unsigned long long)s.viol_count);
	bool first = true;
	for (uint64_t h : s.distinct) {
		fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
		first = false;
	}
	fprintf(f, "],\"counters\":{");
	first = true;
	for (auto& c : s.counters) {
		fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second);
		first = false;
	}
	fprintf(f, "},\"samples\":[");
	first = true;
	for (auto& c : s.samples) {
		fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(c).c_str());
		first = false;
	}
	fprintf(f, "],\"violations\":[");
	first = true;
	for (auto& v : s.viols) {
		fprintf(f, "%s{\"key\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}", first ? "" : ",", jesc(v.key).c_str(), (unsigned long long)v.cas, jesc(v.msg).c_str());
		first = false;
	}
	fprintf(f, "]}\n");
	fclose(f);
	rename(tmp.c_str(), s.out.c_str());
}

inline void parse_args(int argc, char** argv)
{
	State& s = st();
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		std::string v = i + 1 < argc ? argv[i + 1] : "";
		if (a == "--seed")
			s.seed = strtoull(v.c_str(), 0, 10), ++i;
		else if (a == "--shard")
			s.shard = (unsigned)atoi(v.c_str()), ++i;
		else if (a == "--nshards")
			s.nshards = (unsigned)atoi(v.c_str()), ++i;
		else if (a == "--cases")
			s.cases = strtoull(v.c_str(), 0, 10), ++i;
		else if (a == "--only-case")
			s.only = atoll(v.c_str()), ++i;
		else if (a == "--tier")
			s.thorough = v == "thorough", ++i;
		else if (a == "--out")
			s.out = v, ++i;
		else if (a == "--mode")
			s.mode = v, ++i;
		else if (a.size() > 2 && a[0] == '-' && a[1] == '-')
			s.opt[a.substr(2)] = v, ++i;
	}
	if (!s.out.empty()) {
		std::string p = s.out + ".cur";
		int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0 && ftruncate(fd, 4096) == 0) {
			void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (m != MAP_FAILED)
				s.status = (char*)m;
		}
		if (fd >= 0)
			close(fd);
	}
}
inline std::string opt(const std::string& k, const std::string& d = "")
{
	auto it = st().opt.find(k);
	return it == st().opt.end() ? d : it->second;
}

// Runs cases [0,cases) of this shard: case(i, rng). The generator of a case depends on (seed, i) only.
inline int run(int argc, char** argv, const std::function<void(uint64_t, Rng&)>& cas, unsigned watchdog_s = 150)
{
	parse_args(argc, argv);
	State& s = st();
	const uint64_t salt = 77 + strtoull(opt("salt", "0").c_str(), 0, 10);
	start_watchdog(watchdog_s);
	if (s.only >= 0) {
		s.cur_case = (uint64_t)s.only;
		note("start");
		Rng r(s.seed, (uint64_t)s.only, salt);
		cas((uint64_t)s.only, r);
	}
	else
		for (uint64_t i = s.shard; i < s.cases && !too_many(); i += s.nshards) {
			s.cur_case = i;
			note("start");
			Rng r(s.seed, i, salt);
			cas(i, r);
		}
	note("end");
	write_out();
	return 0;
}
} // namespace vh
