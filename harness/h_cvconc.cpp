// P17: threads reading one compressed vector, threads reading and modifying it through the for_each family.
#include "perturb.hpp"
#include "vh.hpp"
#include <memory>
#include <stenos/cvector.hpp>
using namespace vh;

// Delays around the compression and decompression of chunks, which are counted.
static std::atomic<uint64_t> g_comp{ 0 }, g_decomp{ 0 };
extern "C" {
size_t __real_stenos_private_compress_block(stenos_context*, const void*, size_t, size_t, size_t, void*, size_t) __attribute__((weak));
size_t __real_stenos_private_decompress_block(stenos_context*, const void*, size_t, size_t, size_t, void*, size_t) __attribute__((weak));
size_t __wrap_stenos_private_compress_block(stenos_context* c, const void* s, size_t b, size_t sb, size_t n, void* d, size_t dn)
{
	perturb::maybe();
	size_t r = __real_stenos_private_compress_block(c, s, b, sb, n, d, dn);
	g_comp.fetch_add(1, std::memory_order_relaxed);
	perturb::maybe();
	return r;
}
size_t __wrap_stenos_private_decompress_block(stenos_context* c, const void* s, size_t b, size_t sb, size_t n, void* d, size_t dn)
{
	perturb::maybe();
	size_t r = __real_stenos_private_decompress_block(c, s, b, sb, n, d, dn);
	g_decomp.fetch_add(1, std::memory_order_relaxed);
	perturb::maybe();
	return r;
}
}

// Allocations are made while chunk and list locks are held: delays there widen every window.
template<class T>
struct DAlloc {
	using value_type = T;
	DAlloc() noexcept {}
	template<class U>
	DAlloc(const DAlloc<U>&) noexcept
	{
	}
	T* allocate(size_t n)
	{
		perturb::maybe();
		T* p = (T*)malloc(n * sizeof(T));
		if (!p)
			throw std::bad_alloc();
		return p;
	}
	void deallocate(T* p, size_t) noexcept
	{
		perturb::maybe();
		free(p);
	}
	friend bool operator==(const DAlloc&, const DAlloc&) noexcept { return true; }
	friend bool operator!=(const DAlloc&, const DAlloc&) noexcept { return false; }
};

// Element that can tell whether it was written in one piece: check is a function of the other members.
template<int PAD>
struct Cell {
	uint32_t idx, n;
	uint32_t check;
	uint8_t pad[PAD];
	static uint32_t f(uint32_t i, uint32_t n) { return (uint32_t)mix((uint64_t)i << 32 | n); }
	Cell()
	  : Cell(0)
	{
	}
	explicit Cell(uint32_t i)
	  : idx(i)
	  , n(0)
	{
		seal();
	}
	void seal()
	{
		check = f(idx, n);
		for (int k = 0; k < PAD; ++k)
			pad[k] = (uint8_t)(n + (unsigned)k);
	}
	bool ok(uint32_t i) const
	{
		if (idx != i || check != f(idx, n))
			return false;
		for (int k = 0; k < PAD; ++k)
			if (pad[k] != (uint8_t)(n + (unsigned)k))
				return false;
		return true;
	}
	uint32_t value() const { return n; }
	void add()
	{
		++n;
		perturb::maybe();
		seal();
	}
};
// Same, the content owned by a pointer: chunks mixed up or copied bytewise at the wrong moment free or read foreign memory.
struct Box {
	std::unique_ptr<Cell<4>> p;
	Box()
	  : Box(0)
	{
	}
	explicit Box(uint32_t i)
	  : p(new Cell<4>(i))
	{
	}
	bool ok(uint32_t i) const { return p && p->ok(i); }
	uint32_t value() const { return p->n; }
	void add() { p->add(); }
};
namespace stenos {
template<>
struct is_relocatable<Box> : std::true_type {};
}

static std::atomic<int> g_in{ 0 };
static std::atomic<int> g_max{ 0 };
struct In {
	In()
	{
		int n = g_in.fetch_add(1, std::memory_order_relaxed) + 1, m = g_max.load(std::memory_order_relaxed);
		while (n > m && !g_max.compare_exchange_weak(m, n, std::memory_order_relaxed)) {
		}
	}
	~In() { g_in.fetch_sub(1, std::memory_order_relaxed); }
};

struct Stop {};

template<class T, unsigned BS, int L>
struct Round {
	using V = stenos::cvector<T, BS, L, DAlloc<T>>;
	static constexpr size_t B = V::block_size;
	Rng& r;
	std::string name;
	V v;
	size_t n;
	std::string how;
	std::atomic<bool> bad{ false };

	Round(Rng& _r, const char* nm)
	  : r(_r)
	  , name(nm)
	{
		static const size_t mx[] = { 2, 6, 20, 70 };
		n = 1 + r.below(B * mx[r.below(4)]);
		if (r.chance(1, 3)) // last chunk full or missing
			n = B * (1 + n / B);
		for (size_t i = 0; i < n; ++i)
			v.push_back(T((uint32_t)i));
		if (r.chance(1, 2)) {
			v.shrink_to_fit();
			how += "shrunk ";
		}
	}
	void fail(const char* key, const std::string& m)
	{
		if (!bad.exchange(true))
			violation(key, name + fmt(" n=%zu: ", n) + m);
	}
	void range(Rng& q, size_t& a, size_t& e)
	{
		switch (q.below(4)) {
			case 0: a = 0; e = n; break;
			case 1: { // around a chunk boundary, so that threads meet
				size_t c = B * q.below(n / B + 1);
				a = c > 5 ? c - q.below(5) : 0;
				e = c + q.below(6);
			} break;
			case 2: a = q.below(n); e = a + q.below(n - a + 1); break;
			default: a = q.below(n); e = a + q.below(B); break;
		}
		if (e > n)
			e = n;
		if (a > e)
			a = e;
	}

	// read-only threads, any access
	void reader(Rng& q, unsigned rounds, const std::vector<uint32_t>& expect)
	{
		const V& c = v;
		auto ck = [&](const T& x, size_t i, const char* w) {
			if (!x.ok((uint32_t)i))
				fail("conc:torn", fmt("%s of element %zu returns a damaged or another element", w, i));
			else if (x.value() != expect[i])
				fail("conc:value", fmt("%s of element %zu returns %u, expected %u", w, i, x.value(), expect[i]));
		};
		for (unsigned k = 0; k < rounds && !bad.load(std::memory_order_relaxed); ++k) {
			size_t a, e;
			range(q, a, e);
			In in;
			touch();
			switch (q.below(7)) {
				case 0:
					for (int j = 0; j < 40; ++j) {
						size_t i = q.below(n);
						ck(c[i], i, "operator[]");
					}
					break;
				case 1: {
					if (e - a > 600)
						e = a + 600;
					auto it = c.begin() + (std::ptrdiff_t)a;
					for (size_t i = a; i < e; ++i, ++it)
						ck((*it).get(), i, "iterator");
				} break;
				case 2: {
					size_t i = a, res = c.for_each(a, e, [&](const T& x) { ck(x, i++, "for_each"); });
					if (res != e - a || i != e)
						fail("conc:calls", fmt("for_each over [%zu,%zu) returned %zu after %zu calls", a, e, res, i - a));
				} break;
				case 3: {
					size_t i = e, res = c.for_each_backward(a, e, [&](const T& x) { ck(x, --i, "for_each_backward"); });
					if (res != e - a || i != a)
						fail("conc:calls", fmt("for_each_backward over [%zu,%zu) returned %zu after %zu calls", a, e, res, e - i));
				} break;
				case 4: { // references held over other accesses
					size_t p[4];
					for (auto& x : p)
						x = q.below(n);
					auto r0 = c[p[0]], r1 = c[p[1]], r2 = c[p[2]], r3 = c[p[3]];
					const T &t0 = r0, &t1 = r1, &t2 = r2, &t3 = r3;
					for (int j = 0; j < 10; ++j) {
						size_t i = q.below(n);
						ck(c[i], i, "operator[]");
					}
					ck(t0, p[0], "a held reference");
					ck(t1, p[1], "a held reference");
					ck(t2, p[2], "a held reference");
					ck(t3, p[3], "a held reference");
				} break;
				case 5: {
					auto it = c.end();
					for (size_t i = n; i > 0 && n - i < 300; --i) {
						--it;
						ck((*it).get(), i - 1, "iterator --");
					}
				} break;
				default: {
					size_t i = q.below(n);
					ck(c.at(i), i, "at");
					ck(c.front(), 0, "front");
					ck(c.back(), n - 1, "back");
				}
			}
		}
	}

	// threads going through the for_each family only; log[] receives what each call really did: elements [a,e)
	void worker(Rng& q, unsigned rounds, bool writes, std::vector<std::pair<size_t, size_t>>& log)
	{
		for (unsigned k = 0; k < rounds && !bad.load(std::memory_order_relaxed); ++k) {
			size_t a, e;
			range(q, a, e);
			In in;
			touch();
			bool back = q.chance(1, 2);
			size_t stop = q.chance(1, 3) ? q.below(e - a + 1) : (size_t)-1;
			bool boom = q.chance(1, 4); // leave by an exception
			size_t calls = 0, done = 0, res = (size_t)-1;
			auto idx = [&]() { return back ? e - 1 - calls : a + calls; };
			bool thrown = false;
			unsigned slow = q.chance(1, 3) ? 1 + (unsigned)q.below(100) : 0;
			try {
				if (writes) {
					auto f = [&](auto&& x) -> bool {
						size_t i = idx();
						if (!x.ok((uint32_t)i))
							fail("conc:torn", fmt("for_each presents a damaged or another element as %zu", i));
						if (calls == stop) {
							if (boom)
								throw Stop();
							return false;
						}
						++calls;
						if (slow && calls % slow == 0)
							perturb::maybe();
						x.add();
						++done;
						return true;
					};
					auto g = [&](T& x) { f(x); };
					if (stop == (size_t)-1 && q.chance(1, 2))
						res = back ? v.for_each_backward(a, e, g) : v.for_each(a, e, g);
					else
						res = back ? v.for_each_backward(a, e, f) : v.for_each(a, e, f);
				}
				else {
					uint32_t last = 0;
					auto f = [&](const auto& x) -> bool {
						size_t i = idx();
						if (!x.ok((uint32_t)i))
							fail("conc:torn", fmt("const_for_each presents a damaged or another element as %zu", i));
						if (calls == stop) {
							if (boom)
								throw Stop();
							return false;
						}
						++calls;
						last = x.value();
						if (slow && calls % slow == 0)
							perturb::maybe();
						if (x.value() != last)
							fail("conc:changed", fmt("element %zu changes while a const_for_each functor reads it", i));
						return true;
					};
					auto g = [&](const T& x) { f(x); };
					if (stop == (size_t)-1 && q.chance(1, 2))
						res = back ? v.const_for_each_backward(a, e, g) : v.const_for_each(a, e, g);
					else
						res = back ? v.const_for_each_backward(a, e, f) : v.const_for_each(a, e, f);
				}
			}
			catch (const Stop&) {
				thrown = true;
			}
			size_t want = stop < e - a ? stop : e - a;
			if (calls != want || (!thrown && res != want) || thrown != (boom && stop < e - a))
				fail("conc:calls", fmt("for_each%s over [%zu,%zu) stop %zd made %zu calls and returned %zd%s", back ? "_backward" : "", a, e, (ssize_t)stop, calls, (ssize_t)res, thrown ? " (thrown)" : ""));
			if (writes && done) {
				if (back)
					log.emplace_back(e - done, e);
				else
					log.emplace_back(a, a + done);
			}
		}
	}

	uint64_t go()
	{
		static const unsigned pl[] = { 0, 200, 30, 6 };
		unsigned nt = (unsigned)r.range(2, 10), rounds = (unsigned)r.range(3, 14);
		bool ro = r.chance(2, 5);
		unsigned writers = ro ? 0 : (unsigned)r.range(1, nt);
		unsigned lvl = pl[r.below(4)];
		how += fmt("threads=%u writers=%u rounds=%u delays=1/%u", nt, writers, rounds, lvl);
		note(name + fmt(" n=%zu ", n) + how);
		std::vector<uint32_t> expect(n, 0);
		// some chunks already modified, thus dirty, when the threads start
		for (int k = (int)r.below(4); k > 0; --k) {
			size_t a, e;
			range(r, a, e);
			v.for_each(a, e, [&](T& x) { x.add(); });
			for (size_t i = a; i < e; ++i)
				++expect[i];
		}
		std::vector<std::vector<std::pair<size_t, size_t>>> logs(nt);
		std::vector<std::thread> th;
		std::atomic<unsigned> ready{ 0 };
		uint64_t base = r.u64();
		uint64_t d0 = perturb::delays.load(), c0 = g_comp.load(), u0 = g_decomp.load();
		perturb::level = lvl;
		g_max = 0;
		for (unsigned t = 0; t < nt; ++t)
			th.emplace_back([&, t]() {
				Rng q(base, t, 17);
				ready.fetch_add(1);
				while (ready.load() < nt)
					std::this_thread::yield();
				if (ro)
					reader(q, rounds, expect);
				else
					worker(q, rounds, t < writers, logs[t]);
			});
		for (auto& t : th)
			t.join();
		perturb::level = 0;
		count("chunks_compressed_in_rounds", g_comp.load() - c0);
		count("chunks_decompressed_in_rounds", g_decomp.load() - u0);
		uint64_t mods = 0;
		for (auto& l : logs)
			for (auto& x : l) {
				mods += x.second - x.first;
				for (size_t i = x.first; i < x.second; ++i)
					++expect[i];
			}
		if (!bad) {
			size_t i = 0;
			const V& c = v;
			if (r.chance(1, 2))
				v.shrink_to_fit();
			c.for_each(0, n, [&](const T& x) {
				if (!x.ok((uint32_t)i))
					fail("conc:torn", fmt("element %zu is damaged at the end", i));
				else if (x.value() != expect[i])
					fail("conc:lost", fmt("element %zu was modified %u times, %u modifications are left (%s)", i, expect[i], x.value(), how.c_str()));
				++i;
			});
		}
		count("modifications", mods);
		count(ro ? "read_only_rounds" : writers == nt ? "writer_only_rounds" : "mixed_rounds");
		count("threads", nt);
		maximum("simultaneous_calls", (uint64_t)g_max.load());
		count("injected_delays", perturb::delays.load() - d0);
		return hcomb(hcomb(base, n), nt * 100 + writers);
	}
};

// threads each with a vector of their own: nothing is shared
template<class T, unsigned BS, int L>
static uint64_t apart(Rng& r)
{
	using V = stenos::cvector<T, BS, L, DAlloc<T>>;
	unsigned nt = (unsigned)r.range(2, 8);
	uint64_t base = r.u64();
	std::vector<std::thread> th;
	note(fmt("independent vectors in %u threads", nt));
	for (unsigned t = 0; t < nt; ++t)
		th.emplace_back([&, t]() {
			Rng q(base, t, 18);
			size_t n = 300 + q.below(4000);
			V v;
			for (size_t i = 0; i < n; ++i)
				v.push_back(T((uint32_t)i));
			V w;
			for (size_t i = 0; i < n; i += 1 + q.below(50))
				if (!v[i].get().ok((uint32_t)i))
					violation("conc:apart", fmt("element %zu of a vector used by one thread only", i));
			touch();
			v.for_each(0, n, [](T& x) { x.add(); });
			w = std::move(v);
			w.shrink_to_fit();
			size_t i = 0;
			w.for_each(0, n, [&](const T& x) {
				if (!x.ok((uint32_t)i) || x.value() != 1)
					violation("conc:apart", fmt("element %zu of a vector used by one thread only", i));
				++i;
			});
			touch();
		});
	for (auto& t : th)
		t.join();
	count("independent_rounds");
	return hcomb(base, nt);
}

template<class T, unsigned BS, int L>
static uint64_t go(Rng& r, const char* name)
{
	if (r.chance(1, 12))
		return apart<T, BS, L>(r);
	std::unique_ptr<Round<T, BS, L>> d(new Round<T, BS, L>(r, name));
	return d->go();
}

// elements that are std::atomic: neither copied nor moved, only relocated
template<class A, unsigned BS, int L>
static uint64_t atomics(Rng& r)
{
	using V = stenos::cvector<std::atomic<A>, BS, L, DAlloc<std::atomic<A>>>;
	static const unsigned pl[] = { 0, 200, 30, 6 };
	unsigned nt = (unsigned)r.range(2, 8);
	size_t n = 1 + r.below(V::block_size * 20);
	uint64_t base = r.u64();
	std::string d = fmt("cvector<atomic<%zu bytes>,%u,%d> n=%zu threads=%u", sizeof(A), BS, L, n, nt);
	note(d);
	V v;
	std::vector<A> expect;
	auto first = [](size_t i) { return (A)(i * 7 + 1); };
	if (r.chance(1, 2)) {
		v.resize(n);
		expect.assign(n, A());
	}
	for (size_t i = v.size(); i < n; ++i) {
		v.emplace_back(first(i));
		expect.push_back(first(i));
	}
	for (size_t k = r.below(300); k > 0 && n > 1; --k) {
		v.pop_back();
		expect.pop_back();
		--n;
	}
	if (r.chance(1, 2))
		v.shrink_to_fit();
	std::vector<std::vector<A>> add(nt, std::vector<A>(n));
	std::vector<std::thread> th;
	std::atomic<unsigned> ready{ 0 };
	perturb::level = pl[r.below(4)];
	for (unsigned t = 0; t < nt; ++t)
		th.emplace_back([&, t]() {
			Rng q(base, t, 19);
			ready.fetch_add(1);
			while (ready.load() < nt)
				std::this_thread::yield();
			for (unsigned k = 0; k < 6; ++k) {
				size_t a = q.chance(1, 3) ? 0 : q.below(n), e = q.chance(1, 2) ? n : a + q.below(n - a + 1), i;
				touch();
				switch (q.below(4)) {
					case 0:
						i = a;
						v.for_each(a, e, [&](std::atomic<A>& x) { x.fetch_add(A(t + 1)), add[t][i++] += A(t + 1); });
						break;
					case 1:
						i = e;
						v.for_each_backward(a, e, [&](std::atomic<A>& x) { x.fetch_add(A(2 * t + 1)), add[t][--i] += A(2 * t + 1); });
						break;
					default:
						i = 0;
						if (v.const_for_each(a, e, [&](const std::atomic<A>& x) { i += x.load() == x.load(); }) != e - a)
							violation("conc:calls", d + ": const_for_each");
				}
			}
		});
	for (auto& t : th)
		t.join();
	perturb::level = 0;
	for (auto& l : add)
		for (size_t i = 0; i < n; ++i)
			expect[i] = A(expect[i] + l[i]);
	if (r.chance(1, 2))
		v.shrink_to_fit();
	const V& c = v;
	for (size_t i = 0; i < n; ++i)
		if (c[i].get().load() != expect[i]) {
			violation("conc:lost", d + fmt(": atomic element %zu is %llu, expected %llu", i, (unsigned long long)c[i].get().load(), (unsigned long long)expect[i]));
			break;
		}
	count("atomic_rounds");
	return hcomb(base, n);
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	return run(argc, argv,
		   [&](uint64_t i, Rng& r) {
			   uint64_t sig;
			   switch (r.below(16)) {
				   case 15: sig = r.chance(1, 2) ? atomics<uint64_t, 0, 1>(r) : atomics<uint16_t, 1, 1>(r); break;
				   case 0: case 5: case 10: sig = go<Cell<4>, 0, 1>(r, "cvector<16 bytes,0,1>"); break;
				   case 1: case 6: case 11: sig = go<Cell<12>, 1, 2>(r, "cvector<24 bytes,1,2>"); break;
				   case 2: case 7: case 12: sig = go<Cell<1>, 0, 0>(r, "cvector<16 bytes,0,0>"); break;
				   case 3: case 8: case 13: sig = go<Cell<88>, 0, 1>(r, "cvector<100 bytes,0,1>"); break;
				   default: sig = go<Box, 0, 1>(r, "cvector<owning pointer,0,1>");
			   }
			   evaluated(sig);
			   if (i < 4)
				   sample(fmt("case %llu", (unsigned long long)i) + (st().status ? std::string(" ") + st().status : std::string()));
		   },
		   90);
}
