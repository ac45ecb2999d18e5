// Random histories of one compressed vector (and a second one for copies and swaps) against std::vector.
#pragma once
#include "cv.hpp"
#include <forward_list>
#include <iterator>
#include <list>

namespace cv {

enum Mode { MODEL, LIFE, EXC };

struct Ctx {
	Mode mode = MODEL;
	std::string name; // configuration
	std::string hist; // last operations
};

template<class T, unsigned BS, int L>
struct Engine {
	using V = stenos::cvector<T, BS, L, TAlloc<T>>;
	using M = std::vector<T>;
	using Mk = Make<T>;
	static constexpr bool COPY = std::is_copy_constructible<T>::value;
	static constexpr bool PLAIN = std::is_trivially_copyable<T>::value;
	static constexpr bool TRACKED = Mk::tracked;
	static constexpr size_t B = V::block_size;

	Rng& r;
	Ctx& cx;
	V v, v2;
	M m, m2;
	int pat;
	uint64_t next = 0;
	bool failed = false;
	uint64_t faults = 0;
	std::string last;
	size_t maxn;

	Engine(Rng& _r, Ctx& _c)
	  : r(_r)
	  , cx(_c)
	  , v(TAlloc<T>(0))
	  , v2(TAlloc<T>((int)_r.below(2)))
	  , pat((int)_r.below(5))
	{
		static const size_t mx[] = { 700, 3000, 3000, 9000, 30000 };
		maxn = mx[r.below(5)];
		if (sizeof(T) > 64 || TRACKED)
			maxn = maxn > 9000 ? 9000 : maxn;
	}

	void fail(const std::string& key, const std::string& msg)
	{
		// each property reports its own failures only; in exception mode, anything wrong once a fault went off
		bool mine = cx.mode == MODEL ? key[0] == 'm' : cx.mode == LIFE ? key[0] == 'l' : key[0] == 'e' || faults > 0;
		if (!mine)
			vh::count("foreign_failures");
		else if (!failed)
			vh::violation(key, cx.name + " " + msg + " | history: " + (cx.hist.size() > 900 ? "..." + cx.hist.substr(cx.hist.size() - 900) : cx.hist));
		failed = true;
	}
	uint64_t raw()
	{
		++next;
		switch (pat) {
			case 0: return 5;
			case 1: return next;
			case 2: return r.u64() >> 3;
			case 3: return next / 50;
			default: return r.below(8);
		}
	}
	T val() { return Mk::make(raw()); }
	// sizes that hit the chunk boundaries
	size_t some(size_t mx)
	{
		size_t n;
		switch (r.below(6)) {
			case 0: n = r.below(4); break;
			case 1: n = r.below(20); break;
			case 2: n = r.below(B + 2); break;
			case 3: n = B * r.below(4) + (r.chance(1, 2) ? r.below(3) : 0); break;
			case 4: n = B * r.below(mx / B + 1) + r.below(B); break;
			default: n = r.below(mx + 1);
		}
		return n > mx ? mx : n;
	}
	size_t pos(size_t n) // in [0,n)
	{
		size_t p;
		switch (r.below(5)) {
			case 0: p = 0; break;
			case 1: p = n - 1; break;
			case 2: p = B * r.below(n / B + 1) + (r.chance(1, 2) ? 0 : (size_t)-1); break;
			default: p = r.below(n);
		}
		return p < n ? p : r.below(n);
	}
	void begin_op(const std::string& what)
	{
		last = what;
		cx.hist += what + "; ";
		if (cx.hist.size() > 4000)
			cx.hist.erase(0, 2000);
		if (vh::st().status && r.chance(1, 1))
			vh::note(cx.name + " " + (cx.hist.size() > 1500 ? cx.hist.substr(cx.hist.size() - 1500) : cx.hist));
	}
	bool eq1(const T& a, size_t i, const char* how)
	{
		if (i < m.size() && same(a, m[i]))
			return true;
		fail("model:content", fmt("after %s: element %zu of %zu read by %s is %llx, expected %llx", last.c_str(), i, m.size(), how, (unsigned long long)Mk::code(a), (unsigned long long)(i < m.size() ? Mk::code(m[i]) : 0)));
		return false;
	}
	static const V& c(const V& x) { return x; }

	// Compare the whole content through one of the access paths.
	void verify(V& v, M& m, bool full)
	{
		if (v.size() != m.size() || v.empty() != m.empty())
			return fail("model:size", fmt("after %s: size %zu, expected %zu", last.c_str(), v.size(), m.size()));
		size_t n = m.size();
		auto ck = [&](const T& a, size_t i, const char* how) {
			if (!failed && !same(a, m[i]))
				fail("model:content", fmt("after %s: element %zu of %zu read by %s is %llx, expected %llx", last.c_str(), i, n, how, (unsigned long long)Mk::code(a), (unsigned long long)Mk::code(m[i])));
			return !failed;
		};
		if (!full) {
			for (int k = 0; k < 6 && n; ++k) {
				size_t i = pos(n);
				ck(c(v)[i], i, "operator[]");
			}
			if (n) {
				ck(c(v).front(), 0, "front");
				ck(c(v).back(), n - 1, "back");
			}
			return;
		}
		size_t i = 0;
		int how = (int)r.below(10);
		switch (how) {
			case 0:
				for (i = 0; i < n && !failed; ++i)
					ck(c(v)[i], i, "operator[] const");
				break;
			case 1: {
				for (auto it = c(v).begin(); it != c(v).end() && !failed; ++it, ++i)
					ck((*it).get(), i, "const iterator");
				if (i != n && !failed)
					fail("model:iteration", fmt("const iteration visits %zu of %zu", i, n));
			} break;
			case 2: {
				i = n;
#ifndef NO_CONST_REVERSE
				for (auto it = c(v).rbegin(); it != c(v).rend() && !failed; ++it)
					ck((*it).get(), --i, "reverse iterator");
#else
				i = 0;
#endif
				if (i != 0 && !failed)
					fail("model:iteration", fmt("reverse iteration leaves %zu of %zu", i, n));
			} break;
			case 3: {
				size_t k = c(v).for_each(0, n, [&](const T& x) { ck(x, i++, "const for_each"); });
				if (k != n || i != n)
					fail("model:for_each", fmt("for_each returned %zu, called %zu times for %zu elements", k, i, n));
			} break;
			case 4: {
				i = n;
				size_t k = c(v).for_each_backward(0, n, [&](const T& x) { ck(x, --i, "for_each_backward"); });
				if (k != n || i != 0)
					fail("model:for_each", fmt("for_each_backward returned %zu, %zu left of %zu elements", k, i, n));
			} break;
			case 5: {
				size_t k = v.for_each(0, n, [&](T& x) { ck(x, i++, "for_each"); });
				if (k != n)
					fail("model:for_each", fmt("for_each returned %zu for %zu elements", k, n));
			} break;
			case 6: { // strided iterator
				size_t step = 1 + r.below(2 * B);
				auto it = v.begin();
				for (i = 0; i < n && !failed; i += step) {
					ck((*it).get(), i, "iterator +=");
					if (i + step < n)
						it += (std::ptrdiff_t)step;
				}
			} break;
			case 7: { // random jumps of one iterator
				auto it = c(v).begin();
				i = 0;
				for (size_t k = 0; k < n && k < 3000 && !failed; ++k) {
					size_t j = r.chance(1, 2) ? r.below(n) : (i + r.below(5) < n ? i + r.below(5) : i);
					if (j >= n)
						j = n - 1;
					if (j >= i)
						it += (std::ptrdiff_t)(j - i);
					else
						it -= (std::ptrdiff_t)(i - j);
					i = j;
					ck((*it).get(), i, "jumping iterator");
					if (it - c(v).begin() != (std::ptrdiff_t)i)
						fail("model:iterator", "iterator difference");
				}
			} break;
			case 8: {
				i = n;
				auto it = v.end();
				while (i && !failed) {
					--it;
					ck((*it).get(), --i, "iterator --");
				}
			} break;
			default:
				for (i = 0; i < n && !failed; ++i)
					ck(c(v).at(i), i, "at");
		}
		vh::count(fmt("verify_%d", how));
	}

	// rebuild the model from the vector
	void resync(V& v, M& m)
	{
		m.clear();
		c(v).for_each(0, v.size(), [&](const T& x) { m.push_back(dup(x)); });
	}

	void ledgers()
	{
		if (failed)
			return;
		if (TRACKED) {
			if (!ledger().error.empty())
				return fail(ledger().key, "after " + last + ": " + ledger().error);
			uint64_t expect = v.size() + v2.size() + m.size() + m2.size();
			if (ledger().live != expect)
				return fail("life:live-count", fmt("after %s: %llu objects alive, %llu expected (%zu + %zu in the vectors)", last.c_str(), (unsigned long long)ledger().live, (unsigned long long)expect, v.size(), v2.size()));
		}
		for (int i = 0; i < 2; ++i)
			if (!arena(i).error.empty())
				return fail(arena(i).key, "after " + last + ": " + arena(i).error);
	}

	struct InIt { // a pure input iterator over values
		using iterator_category = std::input_iterator_tag;
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		using pointer = const T*;
		using reference = const T&;
		const T* p;
		const T& operator*() const { return *p; }
		InIt& operator++()
		{
			++p;
			return *this;
		}
		InIt operator++(int)
		{
			InIt t = *this;
			++p;
			return t;
		}
		bool operator==(const InIt& o) const { return p == o.p; }
		bool operator!=(const InIt& o) const { return p != o.p; }
	};

	M make_range(size_t n)
	{
		M x;
		x.reserve(n);
		for (size_t i = 0; i < n; ++i)
			x.push_back(val());
		return x;
	}
	size_t growth() // how many elements may be added
	{
		size_t n = m.size() < maxn ? maxn - m.size() : 0;
		size_t k = some(n);
		return r.chance(1, 2) && k > 40 ? r.below(40) : k;
	}
	void ret(const typename V::const_iterator& it, size_t expect)
	{
		if ((size_t)(it - c(v).begin()) != expect)
			fail("model:iterator", fmt("%s returned position %zd, expected %zu", last.c_str(), (ssize_t)(it - c(v).begin()), expect));
		else if (expect < m.size())
			eq1(*it, expect, "returned iterator");
	}

	// One operation applied to both.
	void op()
	{
		size_t n = m.size();
		int o = (int)r.below(35);
		if (n > maxn)
			o = 100;
		switch (o) {
			case 0:
			case 1: { // back insertions
				size_t k = r.chance(1, 3) ? growth() : r.below(30);
				begin_op(fmt("push_back x%zu", k));
				for (size_t i = 0; i < k; ++i) {
					uint64_t x = raw();
					m.push_back(Mk::make(x));
					switch (r.below(3)) {
						case 0:
							if constexpr (COPY) {
								const T t = Mk::make(x);
								v.push_back(t);
								break;
							}
						case 1: v.push_back(Mk::make(x)); break;
						default: eq1(v.emplace_back(Mk::make(x)).get(), m.size() - 1, "emplace_back result");
					}
				}
			} break;
			case 2: {
				size_t k = r.chance(1, 4) ? some(n) : r.below(n < 20 ? n + 1 : 20);
				begin_op(fmt("pop_back x%zu", k));
				for (size_t i = 0; i < k; ++i) {
					v.pop_back();
					m.pop_back();
				}
			} break;
			case 3:
			case 4: {
				size_t p = r.chance(1, 4) || !n ? n : pos(n);
				begin_op(fmt("insert at %zu", p));
				uint64_t x = raw();
				m.insert(m.begin() + (std::ptrdiff_t)p, Mk::make(x));
				switch (r.below(3)) {
					case 0:
						if constexpr (COPY) {
							const T t = Mk::make(x);
							auto it = v.insert(c(v).begin() + (std::ptrdiff_t)p, t);
							ret(it, p);
							break;
						}
					case 1: {
						auto it = v.insert(c(v).begin() + (std::ptrdiff_t)p, Mk::make(x));
						ret(it, p);
					} break;
					default: {
						auto it = v.emplace(c(v).begin() + (std::ptrdiff_t)p, Mk::make(x));
						ret(it, p);
					}
				}
			} break;
			case 5:
			case 6: { // insert range
				size_t p = r.chance(1, 4) || !n ? n : pos(n), k = growth();
				int kind = (int)r.below(6);
				begin_op(fmt("insert range kind %d of %zu at %zu", kind, k, p));
				if constexpr (COPY) {
					M x = make_range(k);
					auto at = c(v).begin() + (std::ptrdiff_t)p;
					if (kind == 0) {
						auto it = v.insert(at, x.begin(), x.end());
						m.insert(m.begin() + (std::ptrdiff_t)p, x.begin(), x.end());
						ret(it, p);
					}
					else if (kind == 1) {
						std::list<T> l(x.begin(), x.end());
						auto it = v.insert(at, l.begin(), l.end());
						m.insert(m.begin() + (std::ptrdiff_t)p, x.begin(), x.end());
						ret(it, p);
					}
					else if (kind == 2) {
						auto it = v.insert(at, InIt{ x.data() }, InIt{ x.data() + k });
						m.insert(m.begin() + (std::ptrdiff_t)p, x.begin(), x.end());
						ret(it, p);
					}
					else if (kind == 3) {
						uint64_t q = raw();
						auto it = v.insert(at, k, Mk::make(q));
						m.insert(m.begin() + (std::ptrdiff_t)p, k, Mk::make(q));
						ret(it, p);
					}
					else if (kind == 4) {
						uint64_t a = raw(), b = raw();
						auto it = v.insert(at, { Mk::make(a), Mk::make(b) });
						m.insert(m.begin() + (std::ptrdiff_t)p, { Mk::make(a), Mk::make(b) });
						ret(it, p);
					}
					else { // from another compressed vector
						V w(x.begin(), x.end(), TAlloc<T>(0));
						auto it = v.insert(at, c(w).begin(), c(w).end());
						m.insert(m.begin() + (std::ptrdiff_t)p, x.begin(), x.end());
						ret(it, p);
					}
				}
				else {
					uint64_t keep = next;
					Rng rk = r;
					M x = make_range(k);
					next = keep;
					r = rk;
					M y = make_range(k);
					auto it = v.insert(c(v).begin() + (std::ptrdiff_t)p, std::make_move_iterator(x.begin()), std::make_move_iterator(x.end()));
					m.insert(m.begin() + (std::ptrdiff_t)p, std::make_move_iterator(y.begin()), std::make_move_iterator(y.end()));
					ret(it, p);
				}
			} break;
			case 7:
			case 8: {
				if (!n)
					break;
				size_t p = pos(n);
				begin_op(fmt("erase %zu", p));
				auto it = v.erase(c(v).begin() + (std::ptrdiff_t)p);
				m.erase(m.begin() + (std::ptrdiff_t)p);
				ret(it, p);
			} break;
			case 9:
			case 10: {
				size_t p = n ? (r.chance(1, 6) ? n : pos(n)) : 0, k = some(n - p);
				if (!n && r.chance(1, 2))
					break;
				begin_op(fmt("erase range %zu of %zu", k, p));
				if (n == 0) // an empty vector may have no data yet
					break;
				auto it = v.erase(c(v).begin() + (std::ptrdiff_t)p, c(v).begin() + (std::ptrdiff_t)(p + k));
				m.erase(m.begin() + (std::ptrdiff_t)p, m.begin() + (std::ptrdiff_t)(p + k));
				ret(it, p);
			} break;
			case 11:
			case 12: {
				size_t k = r.chance(1, 3) ? n + growth() : some(maxn);
				begin_op(fmt("resize %zu", k));
				if (!COPY || r.chance(1, 2)) {
					v.resize(k);
					m.resize(k);
				}
				else if constexpr (COPY) {
					uint64_t x = raw();
					if (r.chance(1, 5) && n && k > n) { // value inside the vector itself
						size_t p = pos(n);
						v.resize(k, v[p]);
						m.resize(k, T(m[p]));
					}
					else {
						v.resize(k, Mk::make(x));
						m.resize(k, Mk::make(x));
					}
				}
			} break;
			case 13:
			case 14: { // assign
				size_t k = some(maxn);
				int kind = (int)r.below(6);
				begin_op(fmt("assign kind %d of %zu", kind, k));
				if constexpr (COPY) {
					M x = make_range(k);
					if (kind == 0)
						v.assign(x.begin(), x.end());
					else if (kind == 1) {
						std::list<T> l(x.begin(), x.end());
						v.assign(l.begin(), l.end());
					}
					else if (kind == 2)
						v.assign(InIt{ x.data() }, InIt{ x.data() + k });
					else if (kind == 3) {
						uint64_t q = raw();
						v.assign(k, Mk::make(q));
						x.assign(k, Mk::make(q));
					}
					else if (kind == 4) {
						uint64_t a = raw(), b = raw(), d = raw();
						v.assign({ Mk::make(a), Mk::make(b), Mk::make(d) });
						x.assign({ Mk::make(a), Mk::make(b), Mk::make(d) });
					}
					else {
						if constexpr (PLAIN) { // binary stream
							std::istringstream iss(std::string((const char*)x.data(), x.size() * sizeof(T)));
							v.assign(stenos::istreambuf_iterator<T>(iss), stenos::istreambuf_iterator<T>());
						}
						else {
							std::forward_list<T> l(x.begin(), x.end());
							v.assign(l.begin(), l.end());
						}
					}
					m.swap(x);
				}
				else {
					uint64_t keep = next;
					Rng rk = r;
					M x = make_range(k);
					next = keep;
					r = rk;
					M y = make_range(k);
					v.assign(std::make_move_iterator(x.begin()), std::make_move_iterator(x.end()));
					m.swap(y);
				}
			} break;
			case 15:
				if (r.chance(1, 3)) {
					begin_op("clear");
					v.clear();
					m.clear();
				}
				break;
			case 16:
			case 17:
				begin_op("shrink_to_fit");
				v.shrink_to_fit();
				break;
			case 18: { // copies
				if constexpr (COPY) {
					switch (r.below(5)) {
						case 0: {
							begin_op("copy construction");
							V w(v);
							m2 = m;
							v2.swap(w);
						} break;
						case 1: {
							begin_op("copy assignment");
							v2 = v;
							m2 = m;
						} break;
						case 2: {
							begin_op("copy to a default constructed vector");
							V w;
							w = c(v);
							v2.swap(w);
							m2 = m;
						} break;
						case 3: {
							begin_op("copy with allocator");
							V w(v, TAlloc<T>(1));
							v2 = std::move(w);
							m2 = m;
						} break;
						default: {
							begin_op("self assignment");
							v = *&v;
						}
					}
				}
			} break;
			case 19: {
				switch (r.below(6)) {
					case 0: {
						begin_op("swap");
						v.swap(v2);
						m.swap(m2);
					} break;
					case 1: {
						begin_op("move construction");
						V w(std::move(v));
						if (v.size() || !v.empty() || v.begin() != v.end())
							fail("model:moved", "the source of a move construction is not empty");
						v2 = std::move(w);
						m2.swap(m);
						m.clear();
					} break;
					case 2: {
						begin_op("move assignment");
						v2 = std::move(v);
						m2.swap(m);
						v.clear();
						m.clear();
					} break;
					case 3: {
						begin_op("move with another allocator");
						V w(std::move(v), TAlloc<T>(1));
						verify(w, m, true);
						v.clear();
						m2.swap(m);
						m.clear();
						v2.swap(w);
					} break;
					case 4: {
						begin_op("move with an equal allocator");
						V w(std::move(v), v.get_allocator());
						v.clear();
						m2.swap(m);
						m.clear();
						v2.swap(w);
					} break;
					default: {
						begin_op("swap with a default constructed vector");
						V w;
						w.swap(v);
						if (v.size() || w.size() != m.size())
							fail("model:swap", "sizes after swap");
						v.swap(w);
					}
				}
			} break;
			case 20: { // range construction
				if constexpr (COPY) {
					size_t k = some(maxn);
					begin_op(fmt("construction of %zu", k));
					M x = make_range(k);
					uint64_t q = raw();
					switch (r.below(5)) {
						case 0: {
							V w(x.begin(), x.end());
							v2.swap(w);
						} break;
						case 1: {
							V w(k, Mk::make(q), TAlloc<T>(1));
							x.assign(k, Mk::make(q));
							v2.swap(w);
						} break;
						case 2: {
							V w(k);
							x.clear();
							x.resize(k);
							v2.swap(w);
						} break;
						case 3: {
							V w{ Mk::make(q), Mk::make(q + 1) };
							x.assign({ Mk::make(q), Mk::make(q + 1) });
							v2.swap(w);
						} break;
						default: {
							V w(c(v).begin(), c(v).end());
							x = m;
							v2.swap(w);
						}
					}
					m2.swap(x);
				}
			} break;
			case 21: { // out of range
				begin_op("at() out of range");
				for (int k = 0; k < 2; ++k) {
					size_t p = n + (k ? r.below(1000) : 0);
					bool thrown = false;
					try {
						T const& t = k ? c(v).at(p).get() : v.at(p).get();
						(void)t;
					}
					catch (const std::out_of_range&) {
						thrown = true;
					}
					if (!thrown)
						fail("model:out-of-range", fmt("at(%zu) of %zu elements did not throw", p, n));
				}
			} break;
			case 22:
			case 23:
			case 24: { // writes
				if (!n)
					break;
				size_t k = 1 + r.below(r.chance(1, 4) ? 200 : 8);
				begin_op(fmt("%zu writes", k));
				for (size_t i = 0; i < k; ++i) {
					size_t p = pos(n);
					uint64_t x = raw();
					m[p] = Mk::make(x);
					switch (r.below(8)) {
						case 0: v[p] = Mk::make(x); break;
						case 1: v.at(p) = Mk::make(x); break;
						case 2: *(v.begin() + (std::ptrdiff_t)p) = Mk::make(x); break;
						case 3: v.begin()[(std::ptrdiff_t)p] = Mk::make(x); break;
						case 4:
							if constexpr (COPY) {
								const T t = Mk::make(x);
								v[p].set(t);
								break;
							}
						case 5: v[p].set(Mk::make(x)); break;
						case 6: {
							auto it = v.end();
							it -= (std::ptrdiff_t)(n - p);
							*it = Mk::make(x);
						} break;
						default: {
							auto it = v.rbegin() + (std::ptrdiff_t)(n - 1 - p);
							*it = Mk::make(x);
						}
					}
				}
				if (r.chance(1, 4)) {
					uint64_t x = raw();
					v.front() = Mk::make(x);
					m.front() = Mk::make(x);
					x = raw();
					v.back() = Mk::make(x);
					m.back() = Mk::make(x);
				}
			} break;
			case 25: { // swaps and moves between elements
				if (!n)
					break;
				begin_op("element swaps");
				for (int k = 0; k < 6; ++k) {
					size_t p = pos(n), q = pos(n);
					if (p == q)
						continue;
					switch (r.below(6)) {
						case 0: {
							using std::swap;
							swap(v[p], v[q]);
							std::swap(m[p], m[q]);
						} break;
						case 1: {
							std::iter_swap(v.begin() + (std::ptrdiff_t)p, v.begin() + (std::ptrdiff_t)q);
							std::swap(m[p], m[q]);
						} break;
						case 2: {
							auto a = v[p], b = v[q];
							a.swap(b);
							std::swap(m[p], m[q]);
						} break;
						case 3: {
							T t = std::move(v[p].move());
							T u = std::move(m[p]);
							if (!same(t, u))
								fail("model:move", fmt("value moved out of %zu", p));
							v[p] = std::move(t);
							m[p] = std::move(u);
						} break;
						case 4:
#ifndef NO_ELEMENT_ASSIGN
							if constexpr (COPY) {
								auto a = v[p];
								const auto b = v[q];
								a = b;
								m[p] = m[q];
							}
#endif
							break;
						default:
#ifndef NO_ELEMENT_ASSIGN
							if constexpr (COPY) {
								auto a = v.begin() + (std::ptrdiff_t)p, b = v.begin() + (std::ptrdiff_t)q;
								*a = *b;
								m[p] = m[q];
							}
#endif
							break;
					}
				}
			} break;
			case 26:
			case 27: { // for_each family with modifications and early stop
#ifdef NO_FOR_EACH_BOOL
				if constexpr (!COPY)
					break;
				else {
#else
				{
#endif
				size_t a = n ? pos(n) : 0, e = a + some(n - a);
				size_t stop = r.chance(1, 2) ? (size_t)-1 : r.below(e - a + 1);
				bool back = r.chance(1, 2);
				bool write = r.chance(2, 3);
				begin_op(fmt("for_each%s [%zu,%zu) stop %zd%s", back ? "_backward" : "", a, e, (ssize_t)stop, write ? " modifying" : ""));
				uint64_t base = raw();
				size_t calls = 0;
				std::vector<size_t> seen;
				auto idx = [&]() { return back ? e - 1 - calls : a + calls; };
				auto f = [&](auto&& x) -> bool {
					size_t i = idx();
					if (i < n && !same(x, m[i]))
						fail("model:content", fmt("for_each visits another value at call %zu", calls));
					if (calls >= stop)
						return false;
					if (write) {
						x = Mk::make(base + calls);
						m[i] = Mk::make(base + calls);
					}
					++calls;
					return true;
				};
				auto g = [&](const T& x) -> bool {
					size_t i = idx();
					if (i < n && !same(x, m[i]))
						fail("model:content", fmt("for_each visits another value at call %zu", calls));
					if (calls >= stop)
						return false;
					++calls;
					return true;
				};
				size_t res;
				if (write)
					res = back ? v.for_each_backward(a, e, f) : v.for_each(a, e, f);
				else if (r.chance(1, 2))
					res = back ? c(v).for_each_backward(a, e, g) : c(v).for_each(a, e, g);
				else
					res = back ? v.const_for_each_backward(a, e, g) : v.const_for_each(a, e, g);
				size_t want = stop < e - a ? stop : e - a;
				if (res != want || calls != want)
					fail("model:for_each", fmt("for_each returned %zu after %zu calls, expected %zu", res, calls, want));
				}
			} break;
			case 28: { // self insertion
				if (!n)
					break;
				if constexpr (COPY) {
					size_t p = pos(n);
					begin_op(fmt("push_back of its element %zu", p));
					v.push_back(v[p]);
					m.push_back(T(m[p]));
				}
			} break;
			case 29: {
				if (!n)
					break;
				begin_op("element comparisons");
				for (int k = 0; k < 5; ++k) {
					size_t p = pos(n), q = pos(n);
					if ((v[p] == v[q]) != (m[p] == m[q]) || (v[p] != v[q]) != (m[p] != m[q]))
						fail("model:compare", fmt("equality of %zu and %zu", p, q));
					if constexpr (COPY)
						if ((v[p] < v[q]) != (m[p] < m[q]) || (v[p] <= v[q]) != (m[p] <= m[q]) || (v[p] > v[q]) != (m[p] > m[q]) || (v[p] >= v[q]) != (m[p] >= m[q]))
							fail("model:compare", fmt("order of %zu and %zu", p, q));
					auto i = v.begin() + (std::ptrdiff_t)p, j = v.begin() + (std::ptrdiff_t)q;
					if ((i < j) != (p < q) || (i == j) != (p == q) || (i != j) != (p != q) || (i <= j) != (p <= q) || (i > j) != (p > q) || (i >= j) != (p >= q) || j - i != (std::ptrdiff_t)q - (std::ptrdiff_t)p)
						fail("model:iterator", "iterator comparisons");
					auto i2 = i++;
					if (i - i2 != 1 || !same((*i2).get(), m[p]))
						fail("model:iterator", "post-increment");
					auto i3 = i--;
					if (i3 - i != 1 || !same((*i).get(), m[p]))
						fail("model:iterator", "post-decrement");
					if (!same(v.begin()[(std::ptrdiff_t)q].get(), m[q]))
						fail("model:iterator", "iterator[]");
				}
			} break;
			case 30: { // serialization does not change the content, deserialization restores it
				if constexpr (PLAIN) {
					begin_op("serialize");
					std::ostringstream oss;
					size_t k = v.serialize(oss);
					std::string s = oss.str();
					if (stenos_has_error(k) || k != s.size())
						fail("model:serialize", fmt("serialize returned %zd for %zu bytes", (ssize_t)k, s.size()));
					size_t d = v2.deserialize(s.data(), s.size());
					if (d != n)
						fail("model:serialize", fmt("deserialize returned %zd for %zu elements", (ssize_t)d, n));
					m2 = m;
				}
			} break;
			case 31: {
				begin_op("read scan");
				size_t k = r.below(200);
				for (size_t i = 0; i < k && n; ++i) {
					size_t p = pos(n);
					eq1(c(v)[p], p, "scan");
				}
			} break;
			case 32:
			case 100: {
				begin_op("shrink by resize");
				size_t k = some(n);
				v.resize(k);
				if constexpr (PLAIN || std::is_default_constructible<T>::value)
					m.resize(k);
			} break;
			case 33: { // values moved out, the elements left as they are
				if (!n)
					break;
				size_t k = 1 + r.below(r.chance(1, 4) ? 60 : 6);
				bool clean = r.chance(1, 2);
				begin_op(fmt("%zu values moved out%s", k, clean ? " of a shrunk vector" : ""));
				if (clean)
					v.shrink_to_fit();
				M kept, mkept;
				for (size_t i = 0; i < k; ++i) {
					size_t p = pos(n);
					int way = (int)r.below(5);
					// the same conversion is applied to an element reference of std::vector
					if (way == 0)
						kept.push_back(std::move(v[p].move()));
					else if (way == 1)
						kept.push_back(T(std::move((*(v.begin() + (std::ptrdiff_t)p)).move())));
					else if (way == 2) {
						auto w = v.at(p);
						T t = std::move(w.move());
						kept.push_back(std::move(t));
					}
					else if (way == 3) {
						if constexpr (!COPY) { // move-only elements are moved by the conversion
							T t = v[p];
							kept.push_back(std::move(t));
						}
						else
							kept.push_back(std::move(v[p].move()));
					}
					else
						v.for_each(p, p + 1, [&](T& x) { kept.push_back(std::move(x)); });
					mkept.push_back(std::move(m[p]));
					if (!same(kept.back(), mkept.back()))
						fail("model:move", fmt("value moved out of %zu", p));
				}
				for (size_t i = 0; i < 600 && n && r.chance(99, 100); i += 20) { // other chunks take the memory
					size_t p = pos(n);
					eq1(c(v)[p], p, "scan");
				}
				for (size_t i = 0; i < kept.size(); ++i)
					if (!same(kept[i], mkept[i]))
						fail(cx.mode == LIFE ? "life:moved" : "model:move", "a value moved out changed afterwards");
			} break;
			default:
				begin_op("statistics");
				if (v.memory_footprint() == 0 && n)
					fail("model:footprint", "footprint 0");
#ifndef NO_RATIO
				(void)v.compression_ratio();
#endif
				(void)v.current_compression_ratio();
				if (v.max_size() < n)
					fail("model:max_size", "max_size");
		}
		vh::count(fmt("op_%02d", o));
	}

	// ---------------------------------------------------------------- exceptions (P16)
	// One operation of the compressed vector with a fault armed; returns true when the fault went off.
	bool faulty_op()
	{
		size_t n = m.size();
		bool alloc = !TRACKED || r.chance(1, 2);
		long k = alloc ? (long)r.range(1, r.chance(1, 3) ? 12 : 4) : (long)r.range(1, r.chance(1, 3) ? 600 : 12);
		uint64_t before = elem_fault().thrown + alloc_fault().thrown;
		++faults;
		bool strong = false;
		size_t keep = 0;		  // elements [0,keep) must not change
		size_t lo = 0, hi = (size_t)-1; // possible sizes afterwards
		std::string what;
		M after; // content if the operation succeeds (empty optional: unknown)
		auto arm = [&]() {
			if (alloc)
				alloc_fault().countdown = k;
			else
				elem_fault().countdown = k;
		};
		auto disarm = [&]() {
			alloc_fault().countdown = -1;
			elem_fault().countdown = -1;
		};
		int o = (int)r.below(17);
		uint64_t q = raw();
		size_t p = n ? pos(n) : 0;
		bool thrown = false, other = false;
		auto cpy = [&](M& to) {
			if constexpr (COPY)
				to = m;
			else
				for (auto& x : m)
					to.push_back(dup(x));
		};
		// prepared before the fault is armed
		T t = Mk::make(q);
		size_t len = some(600);
		M rng;
		if (o == 5 || o == 6)
			rng = make_range(len);
		std::list<T> lst;
		if (o == 6)
			for (auto& x : rng)
				lst.push_back(dup(x));
		std::string bytes;
		try {
			switch (o) {
				case 0:
					what = "push_back";
					strong = true;
					cpy(after);
					after.push_back(Mk::make(q));
					begin_op(what + " with a fault");
					arm();
					if constexpr (COPY)
						v.push_back(t);
					else
						v.push_back(std::move(t));
					break;
				case 1:
					what = "emplace_back";
					strong = true;
					cpy(after);
					after.push_back(Mk::make(TRACKED ? q & 0x3fffffff : q));
					begin_op(what + " with a fault");
					arm();
					if constexpr (TRACKED)
						v.emplace_back((int)(q & 0x3fffffff));
					else
						v.emplace_back(std::move(t));
					break;
				case 2:
					if (!n)
						return false;
					what = "element read";
					strong = true;
					cpy(after);
					begin_op(what + " with a fault");
					arm();
					(void)Mk::code(v[p].get());
					break;
				case 3:
					if (!n)
						return false;
					what = "element write";
					strong = true;
					cpy(after);
					after[p] = Mk::make(q);
					begin_op(what + " with a fault");
					arm();
					if constexpr (COPY)
						v[p].set(t);
					else
						v[p].set(std::move(t));
					break;
				case 4:
					what = "shrink_to_fit";
					strong = true;
					cpy(after);
					begin_op(what + " with a fault");
					arm();
					v.shrink_to_fit();
					break;
				case 5: { // iterators cannot report allocation failures: at the end only, or with a throwing element
					if constexpr (COPY) {
						size_t at = alloc || r.chance(1, 3) ? n : p;
						keep = at;
						lo = n;
						hi = n + len;
						what = fmt("insert of %zu at %zu", len, at);
						cpy(after);
						after.insert(after.begin() + (std::ptrdiff_t)at, rng.begin(), rng.end());
						begin_op(what + " with a fault");
						arm();
						v.insert(c(v).begin() + (std::ptrdiff_t)at, rng.begin(), rng.end());
						break;
					}
					return false;
				}
				case 6: {
					if constexpr (COPY) {
						if (alloc)
							return false;
						size_t at = r.chance(1, 3) ? n : p;
						keep = at;
						lo = n;
						hi = n + len;
						what = fmt("insert of a list of %zu at %zu", len, at);
						cpy(after);
						after.insert(after.begin() + (std::ptrdiff_t)at, rng.begin(), rng.end());
						begin_op(what + " with a fault");
						arm();
						v.insert(c(v).begin() + (std::ptrdiff_t)at, lst.begin(), lst.end());
						break;
					}
					return false;
				}
				case 7: {
					size_t s = n + some(1500);
					what = fmt("resize %zu", s);
					keep = n;
					lo = n;
					hi = s;
					cpy(after);
					after.resize(s);
					begin_op(what + " with a fault");
					arm();
					v.resize(s);
				} break;
				case 8: {
					if constexpr (COPY) {
						size_t s = n + some(1500);
						what = fmt("resize %zu with a value", s);
						keep = n;
						lo = n;
						hi = s;
						cpy(after);
						after.resize(s, T(t));
						begin_op(what + " with a fault");
						arm();
						v.resize(s, t);
						break;
					}
					return false;
				}
				case 9: {
					size_t s = some(n);
					what = fmt("shrinking to %zu", s);
					keep = s;
					lo = s;
					hi = n;
					for (size_t i = 0; i < s; ++i)
						after.push_back(dup(m[i]));
					begin_op(what + " with a fault");
					arm();
					v.resize(s);
				} break;
				case 10: {
					size_t e = p + some(n - p), cnt = 0, boom = r.chance(1, 2) ? r.below(e - p + 1) : (size_t)-1;
					what = fmt("for_each [%zu,%zu)", p, e);
					begin_op(what + " with a fault");
					cpy(after);
					lo = hi = n;
					strong = false;
					keep = p;
					// what the functor did before it threw must be kept, the rest untouched
					arm();
					bool out = false;
					try {
						v.for_each(p, e, [&](T& x) {
							if (cnt == boom)
								throw Boom();
							if constexpr (TRACKED) {
								long save = elem_fault().countdown, save2 = alloc_fault().countdown;
								elem_fault().countdown = -1;
								alloc_fault().countdown = -1;
								x = Mk::make(q + cnt);
								after[p + cnt] = Mk::make(q + cnt);
								elem_fault().countdown = save;
								alloc_fault().countdown = save2;
							}
							else {
								long save2 = alloc_fault().countdown;
								alloc_fault().countdown = -1;
								x = Mk::make(q + cnt);
								after[p + cnt] = Mk::make(q + cnt);
								alloc_fault().countdown = save2;
							}
							++cnt;
						});
					}
					catch (const Boom&) {
						out = true;
					}
					catch (const std::bad_alloc&) {
						out = true;
					}
					disarm();
					if (boom < e - p && !out)
						fail("exc:swallowed", "for_each swallowed the exception of its functor");
					m.swap(after);
					verify(v, m, true);
					if (failed)
						vh::count("exc_for_each_failures");
					if (out)
						vh::count("exc_for_each");
					return out;
				}
				case 11: {
					if constexpr (COPY) {
						what = "copy construction";
						strong = true;
						begin_op(what + " with a fault");
						cpy(after);
						arm();
						V x(v);
						disarm();
						verify(x, m, true);
						break;
					}
					return false;
				}
				case 12: {
					if constexpr (COPY) {
						what = "copy assignment";
						strong = true; // for the source
						begin_op(what + " with a fault");
						cpy(after);
						resync(v2, m2);
						size_t s2 = m2.size();
						bool same_arena = v2.get_allocator() == v.get_allocator();
						bool caught = false;
						arm();
						try {
							v2 = c(v);
						}
						catch (const Boom&) {
							caught = true;
						}
						catch (const std::bad_alloc&) {
							caught = true;
						}
						disarm();
						if (!caught)
							m2 = m;
						else {
							thrown = true;
							if (same_arena && v2.size() != s2 && v2.size() != 0)
								fail("exc:copy-assign", fmt("after a failed copy assignment the destination has %zu elements, it had %zu", v2.size(), s2));
							if (same_arena && v2.size() == s2)
								verify(v2, m2, true);
							else
								resync(v2, m2);
						}
						break;
					}
					return false;
				}
				case 13: {
					if (!n)
						return false;
					what = "pop_back";
					strong = true;
					for (size_t i = 0; i + 1 < n; ++i)
						after.push_back(dup(m[i]));
					begin_op(what + " with a fault");
					arm();
					v.pop_back();
				} break;
				case 14: {
					what = "serialization";
					strong = true;
					cpy(after);
					begin_op(what + " with a fault");
					bytes.resize(n * sizeof(T) + 4 * (n / B + 2) + 12 + 64);
					arm();
					(void)v.serialize(&bytes[0], bytes.size());
				} break;
				case 15: {
					if constexpr (PLAIN) {
						what = "deserialization";
						begin_op(what + " with a fault");
						bytes.resize(n * sizeof(T) + 4 * (n / B + 2) + 12 + 64);
						size_t s = v.serialize(&bytes[0], bytes.size());
						if (stenos_has_error(s))
							return false;
						std::istringstream iss(bytes.substr(0, s));
						bool stream = r.chance(1, 2);
						resync(v2, m2);
						arm();
						bool caught = false;
						size_t d = 0;
						try {
							d = stream ? v2.deserialize(iss) : v2.deserialize(bytes.data(), s);
						}
						catch (const std::bad_alloc&) {
							caught = true;
						}
						disarm();
						if (caught && v2.size())
							fail("exc:deserialize", fmt("an exception during deserialization leaves %zu elements", v2.size()));
						if (!caught && stenos_has_error(d) && v2.size())
							fail("exc:deserialize", fmt("a failed deserialization leaves %zu elements", v2.size()));
						resync(v2, m2);
						if (!caught && d == n)
							verify(v2, m, true);
						cpy(after);
						strong = true;
						thrown = caught;
						break;
					}
					return false;
				}
				default: {
					if constexpr (COPY) { // assign: element faults only (for_each and push_back report allocation failures too)
						size_t s = some(1500);
						what = fmt("assign %zu", s);
						lo = 0;
						hi = n > s ? n : s;
						after.assign(s, T(t));
						begin_op(what + " with a fault");
						arm();
						v.assign(s, t);
						break;
					}
					return false;
				}
			}
		}
		catch (const Boom&) {
			thrown = true;
			other = alloc;
		}
		catch (const std::bad_alloc&) {
			thrown = true;
			other = !alloc;
		}
		disarm();
		uint64_t fired = elem_fault().thrown + alloc_fault().thrown - before;
		if (other)
			fail("exc:other", what + " threw another exception than the one raised");
		if (fired && !thrown && (o != 4 && o != 14)) {
			// An allocation that is only an optimisation may fail silently, then the operation must have succeeded.
			vh::count("exc_survived");
		}
		if (!thrown) {
			m.swap(after);
			after.clear();
			verify(v, m, true);
			return false;
		}
		vh::count(alloc ? "exc_alloc_faults" : "exc_element_faults");
		vh::count(fmt("exc_op_%02d", o));
		// content after the exception
		if (strong) {
			verify(v, m, true);
			if (failed)
				vh::count("exc_strong_failures");
		}
		else {
			size_t s = v.size();
			if (s < lo || s > hi)
				fail("exc:size", fmt("%s threw: size %zu, outside [%zu,%zu]", what.c_str(), s, lo, hi));
			size_t i = 0, calls = c(v).for_each(0, s, [&](const T& x) {
				if (i < keep && i < s && !failed && !same(x, m[i]))
					fail("exc:untouched", fmt("%s threw: element %zu changed, though [0,%zu) had to be left alone", what.c_str(), i, keep));
				++i;
			});
			if (calls != s || i != s)
				fail("exc:usable", fmt("%s threw: %zu elements can be read of %zu", what.c_str(), i, s));
			if (!failed)
				resync(v, m);
		}
		return true;
	}

	// ---------------------------------------------------------------- one history
	void run(size_t ops)
	{
		for (size_t i = 0; i < ops && !failed; ++i) {
			if (cx.mode == EXC && r.chance(1, 2)) {
				uint64_t f0 = elem_fault().thrown + alloc_fault().thrown;
				faulty_op();
				faults += elem_fault().thrown + alloc_fault().thrown - f0;
				--faults;
				ledgers();
				continue;
			}
			op();
			if (failed)
				break;
			ledgers();
			bool full = m.size() < 400 || r.chance(1, m.size() < 4000 ? 3 : 8);
			verify(v, m, full);
			if (last.find("copy") != std::string::npos || last.find("move") != std::string::npos || last.find("swap") != std::string::npos || last.find("ser") == 0 || last.find("constr") != std::string::npos || r.chance(1, 10))
				verify(v2, m2, true);
			ledgers();
			if (r.chance(1, 12))
				pat = (int)r.below(5);
			vh::count("operations");
		}
		if (!failed) {
			verify(v, m, true);
			verify(v2, m2, true);
			ledgers();
		}
		vh::maximum("elements", m.size());
	}
};

// Runs one history and settles the ledgers once everything is destroyed.
template<class T, unsigned BS, int L>
uint64_t history(Rng& r, Ctx& cx, size_t ops)
{
	ledger().reset();
	for (int i = 0; i < 2; ++i)
		arena(i).reset();
	uint64_t sig = 0;
	bool failed;
	{
		std::unique_ptr<Engine<T, BS, L>> e(new Engine<T, BS, L>(r, cx));
		e->run(ops);
		failed = e->failed;
		sig = vh::hcomb(vh::fnv(cx.hist.data(), cx.hist.size()), e->m.size());
	}
	if (failed)
		return sig;
	if (cx.mode == MODEL)
		return sig;
	if (Make<T>::tracked) {
		if (!ledger().error.empty())
			vh::violation(ledger().key, cx.name + " at destruction: " + ledger().error + " | " + cx.hist.substr(cx.hist.size() > 600 ? cx.hist.size() - 600 : 0));
		else if (ledger().live)
			vh::violation("life:leaked-elements", cx.name + fmt(" %llu elements are never destroyed | ", (unsigned long long)ledger().live) + cx.hist.substr(cx.hist.size() > 600 ? cx.hist.size() - 600 : 0));
		vh::count("elements_constructed", ledger().constructed);
		vh::count("elements_destroyed", ledger().destroyed);
	}
	for (int i = 0; i < 2; ++i) {
		if (!arena(i).error.empty())
			vh::violation(arena(i).key, cx.name + " at destruction: " + arena(i).error + " | " + cx.hist.substr(cx.hist.size() > 600 ? cx.hist.size() - 600 : 0));
		else if (arena(i).bytes)
			vh::violation("life:leaked-memory", cx.name + fmt(" %llu bytes in %zu blocks are never given back | ", (unsigned long long)arena(i).bytes, arena(i).blocks.size()) + cx.hist.substr(cx.hist.size() > 600 ? cx.hist.size() - 600 : 0));
		vh::count("allocator_blocks", arena(i).allocs);
	}
	return sig;
}
} // namespace cv
