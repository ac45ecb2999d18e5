// P29: the library used from static and thread_local constructors and destructors, exit handlers, plugins loaded and unloaded, C code.
// Every case is a child process (this executable, started again) whose life is described by VH_LIFE; the parent judges how it ended.
#include "gen.hpp"
#include <dlfcn.h>
#include <poll.h>
#include <spawn.h>
#include <stenos/cvector.hpp>
#include <stenos/stenos.h>
#include <sys/wait.h>
using namespace vh;
extern "C" int life_c(unsigned seed);
extern char** environ;

namespace {
enum { REPORT_FD = 9 };
// early and late parts of the life of a child
struct Plan {
	bool child = false;
	uint64_t seed = 0;
	int boot = 0, main_work = 0, thread_work = 0, tls = 0, tls_main = 0, exit_work = 0, handler = 0, end = 0, plugin = 0, c = 0, vec = 0;
};
void say(char c)
{
	if (write(REPORT_FD, &c, 1) != 1)
		_exit(3);
}
Plan parse(const char* s)
{
	Plan p;
	unsigned long long sd = 0;
	p.child = sscanf(s, "%llu %d %d %d %d %d %d %d %d %d %d %d", &sd, &p.boot, &p.main_work, &p.thread_work, &p.tls, &p.tls_main, &p.exit_work, &p.handler, &p.end, &p.plugin, &p.c, &p.vec) == 12;
	p.seed = sd;
	return p;
}
// constant initialised: usable before and after any other object
struct Api {
	decltype(&stenos_make_context) make;
	decltype(&stenos_destroy_context) destroy;
	decltype(&stenos_set_level) level;
	decltype(&stenos_set_threads) threads;
	decltype(&stenos_compress_generic) compress;
	decltype(&stenos_decompress_generic) decompress;
	decltype(&stenos_has_error) error;
};
bool codec(const Api& a, Rng r, int threads)
{
	for (int k = 0; k < 3; ++k) {
		size_t bpp = r.chance(1, 3) ? 1 : r.range(2, 24), n = threads > 1 ? r.range(300000, 900000) : r.range(1000, 300000);
		std::vector<uint8_t> in(n), fr(stenos::compress_bound(n)), out(n);
		gen::fill(r, in.data(), n, bpp, (int)r.below(gen::KINDS));
		stenos_context* x = a.make();
		if (!x)
			return false;
		a.level(x, (int)r.below(6));
		a.threads(x, threads);
		size_t e = a.compress(x, in.data(), bpp, n, fr.data(), fr.size());
		bool good = !a.error(e) && a.decompress(x, fr.data(), bpp, e, out.data(), n) == n && in == out;
		a.destroy(x);
		if (!good)
			return false;
	}
	return true;
}
template<class T>
bool vec(Rng r)
{
	stenos::cvector<T> v;
	size_t n = r.range(2000, 60000);
	for (size_t i = 0; i < n; ++i)
		v.push_back((T)(i * 3));
	for (size_t k = 0; k < 50; ++k) {
		size_t i = r.below(n);
		v[i] = (T)(i * 3);
	}
	v.shrink_to_fit();
	std::vector<char> buf(stenos::compress_bound(n * sizeof(T)) + 8 * (n * sizeof(T) / (256 * sizeof(T)) + 2));
	size_t s = v.serialize(buf.data(), buf.size());
	if (stenos_has_error(s))
		return false;
	stenos::cvector<T> w;
	if (w.deserialize(buf.data(), s) != n)
		; // the returned value is the business of P18
	if (w.size() != n)
		return false;
	for (size_t i = 0; i < n; i += 7)
		if ((T)w[i] != (T)(i * 3) || (T)v[i] != (T)(i * 3))
			return false;
	return true;
}
Api here()
{
	return Api{ &stenos_make_context, &stenos_destroy_context, &stenos_set_level, &stenos_set_threads, &stenos_compress_generic, &stenos_decompress_generic, &stenos_has_error };
}
// w: 0 nothing, 1 codec alone, 2 codec with threads, 3 vector, 4 all
void work(int w, uint64_t seed, char mark)
{
	if (!w)
		return;
	bool good = true;
	if (w == 1 || w == 4)
		good = good && codec(here(), Rng(seed, 1), 1);
	if (w == 2 || w == 4)
		good = good && codec(here(), Rng(seed, 2), 4);
	if (w == 3 || w == 4)
		good = good && vec<int>(Rng(seed, 3)) && vec<uint64_t>(Rng(seed, 4));
	say(good ? mark : 'X');
}
const Plan& plan()
{
	static const Plan* p = [] {
		const char* s = getenv("VH_LIFE");
		return new Plan(s ? parse(s) : Plan());
	}();
	return *p;
}
// A static object working while it is constructed and destroyed, with a compressed vector as a member.
struct Boot {
	stenos::cvector<int>* v = nullptr;
	Boot()
	{
		const Plan& p = plan();
		if (!p.child)
			return;
		work(p.boot, p.seed + 1, 'b');
		if (p.vec) {
			v = new stenos::cvector<int>;
			for (int i = 0; i < 20000; ++i)
				v->push_back(i);
		}
	}
	~Boot()
	{
		const Plan& p = plan();
		if (!p.child)
			return;
		work(p.exit_work, p.seed + 2, 'e');
		if (v) {
			bool good = v->size() == 20000;
			for (size_t i = 0; good && i < v->size(); ++i) {
				good = (int)(*v)[i] == (int)i;
				(*v)[i] = 7;
			}
			v->shrink_to_fit();
			delete v;
			say(good ? 'v' : 'X');
		}
	}
} boot;
struct Late {
	int w = 0;
	uint64_t seed = 0;
	char mark = 0;
	~Late()
	{
		work(w, seed, mark);
	}
};
thread_local Late late;
void handler()
{
	work(plan().handler, plan().seed + 3, 'h');
}
int tasks()
{
	int n = 0;
	if (DIR* d = opendir("/proc/self/task")) {
		while (dirent* e = readdir(d))
			n += e->d_name[0] != '.';
		closedir(d);
	}
	return n;
}
void plugin(const char* path, int mode, uint64_t seed)
{
	bool good = true;
	int before = tasks();
	for (int k = 0; good && k < (mode == 2 ? 6 : 2); ++k) {
		void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
		if (!h)
			_exit(4);
		Api a;
		a.make = (decltype(a.make))dlsym(h, "stenos_make_context");
		a.destroy = (decltype(a.destroy))dlsym(h, "stenos_destroy_context");
		a.level = (decltype(a.level))dlsym(h, "stenos_set_level");
		a.threads = (decltype(a.threads))dlsym(h, "stenos_set_threads");
		a.compress = (decltype(a.compress))dlsym(h, "stenos_compress_generic");
		a.decompress = (decltype(a.decompress))dlsym(h, "stenos_decompress_generic");
		a.error = (decltype(a.error))dlsym(h, "stenos_has_error");
		if (!a.make || !a.destroy || !a.level || !a.threads || !a.compress || !a.decompress || !a.error)
			_exit(4);
		if (mode == 2 || k) // in a thread that ends before the library is unloaded
			std::thread([&] { good = codec(a, Rng(seed, 10 + k), 1 + k % 4); }).join();
		else
			good = codec(a, Rng(seed, 20), 3);
		if (mode == 2) {
			dlclose(h);
			// when it is really unloaded its threads are gone
			if (!dlopen(path, RTLD_NOW | RTLD_NOLOAD) && tasks() > before) {
				usleep(200000);
				good = good && tasks() <= before;
			}
			if (!dlopen(path, RTLD_NOW | RTLD_NOLOAD))
				say('u');
		}
	}
	say(good ? 'p' : 'X');
}
int child(const char* lib)
{
	const Plan& p = plan();
	if (p.handler)
		atexit(handler);
	if (p.tls_main) {
		late.w = p.tls_main;
		late.seed = p.seed + 4;
		late.mark = 'l';
	}
	work(p.main_work, p.seed + 5, 'm');
	if (p.c)
		say(life_c((unsigned)p.seed) ? 'X' : 'c');
	if (p.plugin)
		plugin(lib, p.plugin, p.seed);
	if (p.thread_work || p.tls)
		for (int k = 0; k < 2; ++k)
			std::thread([&, k] {
				if (p.tls && k) { // registered before the buffers of the library: destroyed after them
					late.w = p.tls;
					late.seed = p.seed + 6;
					late.mark = 't';
				}
				work(p.thread_work, p.seed + 7, 'w');
				if (p.tls && !k) {
					late.w = p.tls;
					late.seed = p.seed + 8;
					late.mark = 't';
				}
			}).join();
	if (p.end == 1)
		exit(0);
	if (p.end == 2) {
		std::thread([] { exit(0); }).detach();
		while (true)
			pause();
	}
	return 0;
}
} // namespace

int main(int argc, char** argv)
{
	if (plan().child)
		return child(argc > 1 ? argv[1] : "");
	parse_args(argc, argv);
	const std::string lib = opt("lib");
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		Plan p;
		p.seed = r.below(1000000000);
		auto w = [&](int num, int den) { return r.chance((unsigned)num, (unsigned)den) ? (int)r.range(1, 4) : 0; };
		p.boot = w(1, 2);
		p.main_work = w(1, 2);
		p.thread_work = w(1, 2);
		p.tls = w(1, 2);
		p.tls_main = w(1, 3);
		p.exit_work = w(1, 2);
		p.handler = w(1, 3);
		p.end = (int)r.below(3);
		p.plugin = r.chance(1, 4) ? (int)r.range(1, 2) : 0;
		p.c = r.chance(1, 4);
		p.vec = r.chance(1, 3);
		std::string life = fmt("%llu %d %d %d %d %d %d %d %d %d %d %d", (unsigned long long)p.seed, p.boot, p.main_work, p.thread_work, p.tls, p.tls_main, p.exit_work, p.handler, p.end, p.plugin, p.c, p.vec);
		std::map<char, int> expect;
		if (p.boot)
			expect['b'] = 1;
		if (p.main_work)
			expect['m'] = 1;
		if (p.thread_work)
			expect['w'] = 2;
		if (p.tls)
			expect['t'] = 2;
		if (p.tls_main && p.end != 2) // exit() called by another thread: those of the main thread are not destroyed
			expect['l'] = 1;
		if (p.exit_work)
			expect['e'] = 1;
		if (p.handler)
			expect['h'] = 1;
		if (p.plugin)
			expect['p'] = 1;
		if (p.c)
			expect['c'] = 1;
		if (p.vec)
			expect['v'] = 1;
		std::string d = fmt("life: static constructor %d, main %d, threads %d, thread_local destructors %d and %d, static destructor %d, exit handler %d, end %d, plugin %d, C %d, vector %d (0 none, 1 codec, 2 codec with threads, 3 vector, 4 all)", p.boot,
				    p.main_work, p.thread_work, p.tls, p.tls_main, p.exit_work, p.handler, p.end, p.plugin, p.c, p.vec);
		note(d);
		for (int attempt = 0; attempt < 2; ++attempt) {
			int fd[2];
			if (pipe(fd))
				_exit(3);
			std::vector<std::string> env;
			for (char** e = environ; *e; ++e)
				env.push_back(*e);
			env.push_back("VH_LIFE=" + life);
			std::vector<char*> ep;
			for (auto& e : env)
				ep.push_back(&e[0]);
			ep.push_back(nullptr);
			std::string a0 = argv[0];
			char* av[] = { &a0[0], const_cast<char*>(lib.c_str()), nullptr };
			posix_spawn_file_actions_t fa;
			posix_spawn_file_actions_init(&fa);
			posix_spawn_file_actions_adddup2(&fa, fd[1], REPORT_FD);
			posix_spawn_file_actions_addclose(&fa, fd[0]);
			pid_t pid;
			if (posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, av, ep.data()))
				_exit(3);
			posix_spawn_file_actions_destroy(&fa);
			close(fd[1]);
			std::map<char, int> got;
			double t0 = now();
			bool hung = false;
			while (true) {
				struct pollfd pf = { fd[0], POLLIN, 0 };
				int k = poll(&pf, 1, 1000);
				touch();
				if (k > 0) {
					char b[64];
					ssize_t q = read(fd[0], b, sizeof b);
					if (q <= 0)
						break;
					for (ssize_t z = 0; z < q; ++z)
						got[b[z]]++;
				}
				if (now() - t0 > 60) {
					hung = true;
					kill(pid, SIGKILL);
					break;
				}
			}
			close(fd[0]);
			int status = 0;
			double t1 = now();
			while (!hung && waitpid(pid, &status, WNOHANG) == 0) {
				usleep(2000);
				if (now() - t1 > 60) {
					hung = true;
					kill(pid, SIGKILL);
				}
			}
			if (hung) {
				waitpid(pid, &status, 0);
				if (!attempt) {
					count("slow_children");
					continue; // a loaded machine, perhaps
				}
				std::string g;
				for (auto& x : got)
					g += x.first;
				violation("life:hang", d + ": did not end in 60 s, twice; reached " + g);
				count("hung");
				return;
			}
			if (got.count('u'))
				count("libraries_unloaded", (uint64_t)got['u']), got.erase('u');
			if (WIFEXITED(status) && (WEXITSTATUS(status) == 3 || WEXITSTATUS(status) == 4)) {
				fprintf(stderr, "child could not be set up: %d\n", WEXITSTATUS(status));
				_exit(3);
			}
			std::string g;
			for (auto& x : got)
				g += fmt("%c%d", x.first, x.second);
			if (WIFSIGNALED(status))
				violation("life:crash", d + fmt(": killed by signal %d after %s", WTERMSIG(status), g.c_str()));
			else if (WEXITSTATUS(status))
				violation("life:report", d + fmt(": exit status %d after %s", WEXITSTATUS(status), g.c_str()));
			else if (got.count('X'))
				violation("life:content", d + ": wrong result, " + g);
			else if (got != expect)
				violation("life:incomplete", d + ": " + g);
			for (auto& x : expect)
				count(fmt("stage_%c", x.first), (uint64_t)x.second);
			count(fmt("end_%d", p.end));
			evaluated(fnv(life.data(), life.size()));
			if (i < 3)
				sample(d + " -> " + g);
			break;
		}
	});
}
