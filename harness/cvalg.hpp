#pragma once
#include "cv.hpp"
#include <algorithm>
#include <numeric>
#include <random>

namespace cv {

struct AlgCtx {
	std::string name, hist;
};

template<class T, unsigned BS, int L>
struct Alg {
	using V = stenos::cvector<T, BS, L, TAlloc<T>>;
	using M = std::vector<T>;
	using Mk = Make<T>;
	static constexpr size_t B = V::block_size;
	static constexpr bool COPY = std::is_copy_constructible<T>::value;

	Rng& r;
	AlgCtx& cx;
	V v;
	M m;
	bool failed = false;
	std::string last;
	uint64_t next = 0;
	int pat;

	Alg(Rng& _r, AlgCtx& _c)
	  : r(_r)
	  , cx(_c)
	  , v(TAlloc<T>(0))
	  , pat((int)r.below(5))
	{
	}
	void bad(const std::string& key, const std::string& msg)
	{
		if (!failed)
			vh::violation(key, cx.name + " " + msg + " | " + cx.hist);
		failed = true;
	}
	static uint64_t key(const T& t) { return Mk::code(t); }
	struct Less {
		bool operator()(const T& a, const T& b) const { return key(a) < key(b); }
	};
	struct Eq {
		bool operator()(const T& a, const T& b) const { return key(a) == key(b); }
	};
	// orders by a part of the value only
	struct LessPart {
		bool operator()(const T& a, const T& b) const { return key(a) % 7 < key(b) % 7; }
	};
	struct Odd {
		uint64_t mod;
		bool operator()(const T& a) const { return key(a) % mod == 1 % mod; }
	};
	T val()
	{
		++next;
		switch (pat) {
			case 0: return Mk::make(next);
			case 1: return Mk::make(r.below(10));
			case 2: return Mk::make(r.u64() >> 3);
			case 3: return Mk::make(next / 20);
			default: return Mk::make(1000000 - next);
		}
	}
	void check(bool multiset_only = false)
	{
		if (failed)
			return;
		if (v.size() != m.size())
			return bad("alg:size", vh::fmt("%s: %zu elements, std::vector has %zu", last.c_str(), v.size(), m.size()));
		const V& c = v;
		if (multiset_only) {
			std::vector<uint64_t> a, b;
			c.for_each(0, c.size(), [&](const T& t) { a.push_back(key(t)); });
			for (auto& t : m)
				b.push_back(key(t));
			std::sort(a.begin(), a.end());
			std::sort(b.begin(), b.end());
			if (a != b)
				bad("alg:elements", last + ": elements were lost or duplicated");
			resync();
			return;
		}
		size_t i = 0;
		c.for_each(0, c.size(), [&](const T& t) {
			if (!failed && !same(t, m[i]))
				bad("alg:content", vh::fmt("%s: element %zu of %zu is %llx, std::vector has %llx", last.c_str(), i, m.size(), (unsigned long long)key(t), (unsigned long long)key(m[i])));
			++i;
		});
	}
	// the model takes the (permuted) content of the vector
	void resync()
	{
		m.clear();
		const V& c = v;
		c.for_each(0, c.size(), [&](const T& t) { m.push_back(dup(t)); });
	}
	// values whose state is not specified any more are replaced
	void refresh(size_t a, size_t b)
	{
		for (size_t i = a; i < b; ++i) {
			T x = val();
			m[i] = dup(x);
			v[i] = std::move(x);
		}
	}
	void begin(const std::string& s, const char* id)
	{
		last = s;
		cx.hist += s + "; ";
		if (cx.hist.size() > 2000)
			cx.hist.erase(0, 800);
		vh::note(cx.name + " " + cx.hist);
		vh::count(std::string("alg_") + id);
		vh::count("algorithms");
	}
	void same_pos(ptrdiff_t a, ptrdiff_t b)
	{
		if (a != b)
			bad("alg:result", vh::fmt("%s returned position %td, with std::vector %td", last.c_str(), a, b));
	}
	template<class X>
	void same_res(X a, X b)
	{
		if (!(a == b))
			bad("alg:result", vh::fmt("%s returned %lld, with std::vector %lld", last.c_str(), (long long)a, (long long)b));
	}
	void fill()
	{
		size_t n;
		switch (r.below(5)) {
			case 0: n = r.below(20); break;
			case 1: n = r.below(B + 2); break;
			case 2: n = B * (1 + r.below(4)); break;
			default: n = r.below(12 * B);
		}
		for (size_t i = 0; i < n; ++i) {
			T x = val();
			m.push_back(dup(x));
			v.push_back(std::move(x));
		}
		if (r.chance(1, 2))
			v.shrink_to_fit();
	}
	size_t cut(size_t a, size_t b) // in [a,b]
	{
		switch (r.below(4)) {
			case 0: return a;
			case 1: return b;
			case 2: {
				size_t p = (a + r.below(b - a + 1)) / B * B;
				return p < a ? a : p;
			}
			default: return a + r.below(b - a + 1);
		}
	}

	void one()
	{
		size_t n = m.size(), a = 0, b = n;
		if (r.chance(1, 2)) {
			a = cut(0, n);
			b = cut(a, n);
		}
		size_t mid = cut(a, b);
		auto at = [](auto& c, size_t p) { return c.begin() + (ptrdiff_t)p; };
		auto vp = [&](const auto& it) { return it - v.begin(); };
		auto mp = [&](const auto& it) { return it - m.begin(); };
		std::string rg = vh::fmt("[%zu,%zu)", a, b);
		unsigned which = (unsigned)r.below(COPY ? 36 : 18);
		switch (which) {
			case 0:
				begin("sort" + rg, "sort");
				std::sort(at(v, a), at(v, b), Less());
				std::sort(at(m, a), at(m, b), Less());
				check();
				break;
			case 1:
				begin("stable_sort" + rg, "stable_sort");
				std::stable_sort(at(v, a), at(v, b), LessPart());
				std::stable_sort(at(m, a), at(m, b), LessPart());
				check();
				break;
			case 2:
				begin("reverse" + rg, "reverse");
				std::reverse(at(v, a), at(v, b));
				std::reverse(at(m, a), at(m, b));
				check();
				break;
			case 3: {
				begin("rotate" + rg + vh::fmt(" by %zu", mid - a), "rotate");
				auto i = std::rotate(at(v, a), at(v, mid), at(v, b));
				auto j = std::rotate(at(m, a), at(m, mid), at(m, b));
				same_pos(vp(i), mp(j));
				check();
				break;
			}
			case 4: {
				begin("unique" + rg, "unique");
				auto i = std::unique(at(v, a), at(v, b), Eq());
				auto j = std::unique(at(m, a), at(m, b), Eq());
				same_pos(vp(i), mp(j));
				if (!failed) {
					refresh((size_t)mp(j), b);
					check();
				}
				break;
			}
			case 5: {
				begin("remove_if" + rg, "remove_if");
				Odd p{ 1 + r.below(4) };
				auto i = std::remove_if(at(v, a), at(v, b), p);
				auto j = std::remove_if(at(m, a), at(m, b), p);
				same_pos(vp(i), mp(j));
				if (failed)
					break;
				if (r.chance(1, 2)) {
					size_t e = (size_t)mp(j);
					v.erase(v.cbegin() + (ptrdiff_t)e, v.cbegin() + (ptrdiff_t)b);
					m.erase(m.begin() + (ptrdiff_t)e, m.begin() + (ptrdiff_t)b);
				}
				else
					refresh((size_t)mp(j), b);
				check();
				break;
			}
			case 6: {
				begin("partition" + rg, "partition");
				Odd p{ 1 + r.below(4) };
				auto i = std::partition(at(v, a), at(v, b), p);
				size_t k = (size_t)std::count_if(at(m, a), at(m, b), p);
				same_pos(vp(i), (ptrdiff_t)(a + k));
				const V& c = v;
				for (size_t q = a; q < b && !failed; ++q)
					if (p(c[q].get()) != (q < a + k))
						bad("alg:partition", vh::fmt("%s: element %zu is on the wrong side", last.c_str(), q));
				for (size_t q = 0; q < n && !failed; ++q)
					if ((q < a || q >= b) && !same(c[q].get(), m[q]))
						bad("alg:outside", vh::fmt("%s: element %zu, outside the range, changed", last.c_str(), q));
				check(true);
				break;
			}
			case 7: {
				begin("stable_partition" + rg, "stable_partition");
				Odd p{ 1 + r.below(4) };
				auto i = std::stable_partition(at(v, a), at(v, b), p);
				auto j = std::stable_partition(at(m, a), at(m, b), p);
				same_pos(vp(i), mp(j));
				check();
				break;
			}
			case 8: { // move forward, possibly overlapping
				size_t d = a ? r.below(a + 1) : 0;
				if (d == a)
					break; // moving onto itself is not allowed
				begin("move" + rg + vh::fmt(" to %zu", d), "move");
				auto i = std::move(at(v, a), at(v, b), at(v, d));
				auto j = std::move(at(m, a), at(m, b), at(m, d));
				same_pos(vp(i), mp(j));
				if (!failed) {
					refresh(std::max(a, (size_t)mp(j)), b);
					check();
				}
				break;
			}
			case 9: {
				size_t e = b + r.below(n - b + 1);
				if (e == b)
					break;
				begin("move_backward" + rg + vh::fmt(" to %zu", e), "move_backward");
				auto i = std::move_backward(at(v, a), at(v, b), at(v, e));
				auto j = std::move_backward(at(m, a), at(m, b), at(m, e));
				same_pos(vp(i), mp(j));
				if (!failed) {
					refresh(a, std::min(b, (size_t)mp(j)));
					check();
				}
				break;
			}
			case 10: { // out of the vector and back
				begin("move out and in " + rg, "move_out");
				M x, y;
				for (size_t q = a; q < b; ++q)
					x.push_back(val());
				for (auto& q : x)
					y.push_back(dup(q));
				if constexpr (COPY)
					std::move(at(v, a), at(v, b), x.begin());
				else { // std::move() of a range of move-only elements out of a compressed vector does not compile
					for (size_t q = a; q < b; ++q) {
						auto ref = v[q];
						if (q % 2)
							x[q - a] = std::move(ref);
						else
							x[q - a] = ref.move();
					}
				}
				std::move(at(m, a), at(m, b), y.begin());
				for (size_t q = 0; q < x.size() && !failed; ++q)
					if (!same(x[q], y[q]))
						bad("alg:moved-out", vh::fmt("%s: element %zu", last.c_str(), q));
				std::reverse(x.begin(), x.end());
				std::reverse(y.begin(), y.end());
				std::move(x.begin(), x.end(), at(v, a));
				std::move(y.begin(), y.end(), at(m, a));
				check();
				break;
			}
			case 11: {
				begin("shuffle" + rg, "shuffle");
				std::mt19937 g((unsigned)r.u64());
				std::shuffle(at(v, a), at(v, b), g);
				const V& c = v;
				for (size_t q = 0; q < n && !failed; ++q)
					if ((q < a || q >= b) && !same(c[q].get(), m[q]))
						bad("alg:outside", vh::fmt("%s: element %zu, outside the range, changed", last.c_str(), q));
				check(true);
				break;
			}
			case 12: {
				begin("swap_ranges" + rg, "swap_ranges");
				size_t k = (b - a) / 2;
				std::swap_ranges(at(v, a), at(v, a + k), at(v, a + k));
				std::swap_ranges(at(m, a), at(m, a + k), at(m, a + k));
				check();
				break;
			}
			case 13: {
				begin("transform in place" + rg, "transform");
				auto f = [](const T& t) { return Mk::make(key(t) / 2 + 3); };
				std::transform(at(v, a), at(v, b), at(v, a), f);
				std::transform(at(m, a), at(m, b), at(m, a), f);
				check();
				break;
			}
			case 14: { // searches in a sorted range
				begin("binary searches" + rg, "binary_search");
				std::sort(at(v, a), at(v, b), Less());
				std::sort(at(m, a), at(m, b), Less());
				const V& c = v;
				for (int q = 0; q < 12 && !failed; ++q) {
					T x = r.chance(1, 2) && n ? dup(m[r.below(n)]) : val();
					same_pos(std::lower_bound(at(c, a), at(c, b), x, Less()) - c.begin(), std::lower_bound(at(m, a), at(m, b), x, Less()) - m.begin());
					same_pos(std::upper_bound(at(v, a), at(v, b), x, Less()) - v.begin(), std::upper_bound(at(m, a), at(m, b), x, Less()) - m.begin());
					same_pos(std::equal_range(at(c, a), at(c, b), x, Less()).second - c.begin(), std::equal_range(at(m, a), at(m, b), x, Less()).second - m.begin());
					same_res<int>(std::binary_search(at(c, a), at(c, b), x, Less()), std::binary_search(at(m, a), at(m, b), x, Less()));
				}
				check();
				break;
			}
			case 15: {
				begin("reads" + rg, "reads");
				const V& c = v;
				Odd p{ 1 + r.below(6) };
				same_pos(std::find_if(at(c, a), at(c, b), p) - c.begin(), std::find_if(at(m, a), at(m, b), p) - m.begin());
				same_res(std::count_if(at(c, a), at(c, b), p), std::count_if(at(m, a), at(m, b), p));
				same_pos(std::max_element(at(c, a), at(c, b), Less()) - c.begin(), std::max_element(at(m, a), at(m, b), Less()) - m.begin());
				same_pos(std::min_element(at(v, a), at(v, b), Less()) - v.begin(), std::min_element(at(m, a), at(m, b), Less()) - m.begin());
				same_pos(std::adjacent_find(at(c, a), at(c, b), Eq()) - c.begin(), std::adjacent_find(at(m, a), at(m, b), Eq()) - m.begin());
				same_res<int>(std::is_sorted(at(c, a), at(c, b), Less()), std::is_sorted(at(m, a), at(m, b), Less()));
				same_res<int>(std::equal(at(c, a), at(c, b), at(m, a), Eq()), 1);
				same_res<uint64_t>(std::accumulate(at(c, a), at(c, b), (uint64_t)0, [](uint64_t s, const T& t) { return s * 31 + key(t); }), std::accumulate(at(m, a), at(m, b), (uint64_t)0, [](uint64_t s, const T& t) { return s * 31 + key(t); }));
				check();
				break;
			}
			case 16: {
				begin("generate" + rg, "generate");
				uint64_t x = r.below(1000), y = x;
				std::generate(at(v, a), at(v, b), [&]() { return Mk::make(x += 3); });
				std::generate(at(m, a), at(m, b), [&]() { return Mk::make(y += 3); });
				check();
				break;
			}
			case 17: { // through reverse iterators
#ifndef NO_CONST_REVERSE
				begin("reverse iterators" + rg, "reverse_iterators");
				auto ra = v.rbegin() + (ptrdiff_t)(n - b), rb = v.rbegin() + (ptrdiff_t)(n - a);
				auto sa = m.rbegin() + (ptrdiff_t)(n - b), sb = m.rbegin() + (ptrdiff_t)(n - a);
				Odd p{ 1 + r.below(5) };
				same_pos(std::find_if(ra, rb, p) - v.rbegin(), std::find_if(sa, sb, p) - m.rbegin());
				if (r.chance(1, 2)) {
					std::sort(ra, rb, Less());
					std::sort(sa, sb, Less());
				}
				else {
					std::reverse(ra, rb);
					std::reverse(sa, sb);
				}
				check();
#endif
				break;
			}
			default:
				if constexpr (COPY)
					copying(which, a, b, mid, rg);
		}
	}

	void copying(unsigned which, size_t a, size_t b, size_t mid, const std::string& rg)
	{
		size_t n = m.size();
		auto at = [](auto& c, size_t p) { return c.begin() + (ptrdiff_t)p; };
		auto vp = [&](const auto& it) { return it - v.begin(); };
		auto mp = [&](const auto& it) { return it - m.begin(); };
		const V& c = v;
		switch (which) {
			case 18: {
#ifndef NO_ELEMENT_ASSIGN
				size_t d = a ? r.below(a) : 0;
				if (!a)
					break;
				begin("copy" + rg + vh::fmt(" to %zu", d), "copy");
				auto i = std::copy(at(v, a), at(v, b), at(v, d));
				auto j = std::copy(at(m, a), at(m, b), at(m, d));
				same_pos(vp(i), mp(j));
				check();
#endif
				break;
			}
			case 19: {
#ifndef NO_ELEMENT_ASSIGN
				if (b == n)
					break;
				size_t e = b + 1 + r.below(n - b);
				begin("copy_backward" + rg + vh::fmt(" to %zu", e), "copy_backward");
				auto i = std::copy_backward(at(v, a), at(v, b), at(v, e));
				auto j = std::copy_backward(at(m, a), at(m, b), at(m, e));
				same_pos(vp(i), mp(j));
				check();
#endif
				break;
			}
			case 20: {
				begin("copy out, in and append" + rg, "copy_out");
				M x(b - a, val());
				std::copy(at(c, a), at(c, b), x.begin());
				for (size_t q = 0; q < x.size() && !failed; ++q)
					if (!same(x[q], m[a + q]))
						bad("alg:copied-out", vh::fmt("%s: element %zu", last.c_str(), q));
				std::reverse(x.begin(), x.end());
				std::copy(x.begin(), x.end(), at(v, a));
				std::copy(x.begin(), x.end(), at(m, a));
				if (m.size() < 20 * B) {
					std::copy(x.begin(), x.end(), std::back_inserter(v));
					std::copy(x.begin(), x.end(), std::back_inserter(m));
				}
				check();
				break;
			}
			case 21: { // from another compressed vector
				begin("copy from and to another cvector" + rg, "copy_other");
				V o(at(c, a), at(c, b), TAlloc<T>(0));
				std::reverse(o.begin(), o.end());
				const V& co = o;
				std::copy(co.begin(), co.end(), at(v, a));
				std::reverse(at(m, a), at(m, b));
				check();
				std::sort(o.begin(), o.end(), Less());
				std::move(o.begin(), o.end(), at(v, a));
				std::sort(at(m, a), at(m, b), Less());
				check();
				break;
			}
			case 22: {
				begin("fill" + rg, "fill");
				T x = val();
				std::fill(at(v, a), at(v, b), x);
				std::fill(at(m, a), at(m, b), x);
				check();
				break;
			}
			case 23: {
				begin("replace_if" + rg, "replace_if");
				T x = val();
				Odd p{ 1 + r.below(4) };
				std::replace_if(at(v, a), at(v, b), p, x);
				std::replace_if(at(m, a), at(m, b), p, x);
				check();
				break;
			}
			case 24: {
				begin("inplace_merge" + rg, "inplace_merge");
				for (int k = 0; k < 2; ++k) {
					size_t p = k ? mid : a, q = k ? b : mid;
					std::sort(at(v, p), at(v, q), Less());
					std::sort(at(m, p), at(m, q), Less());
				}
				std::inplace_merge(at(v, a), at(v, mid), at(v, b), Less());
				std::inplace_merge(at(m, a), at(m, mid), at(m, b), Less());
				check();
				break;
			}
			case 25: {
				begin("partial_sort" + rg, "partial_sort");
				std::partial_sort(at(v, a), at(v, mid), at(v, b), Less());
				std::partial_sort(at(m, a), at(m, mid), at(m, b), Less());
				for (size_t q = a; q < mid && !failed; ++q)
					if (key(c[q].get()) != key(m[q]))
						bad("alg:content", vh::fmt("%s: element %zu", last.c_str(), q));
				check(true);
				break;
			}
			case 26: {
				if (mid == b)
					break;
				begin("nth_element" + rg, "nth_element");
				std::nth_element(at(v, a), at(v, mid), at(v, b), Less());
				std::nth_element(at(m, a), at(m, mid), at(m, b), Less());
				if (key(c[mid].get()) != key(m[mid]))
					bad("alg:content", vh::fmt("%s: element %zu", last.c_str(), mid));
				check(true);
				break;
			}
			case 27: {
				begin("heap" + rg, "heap");
				std::make_heap(at(v, a), at(v, b), Less());
				same_res<int>(std::is_heap(at(c, a), at(c, b), Less()), 1);
				if (b > a) {
					std::pop_heap(at(v, a), at(v, b), Less());
					std::push_heap(at(v, a), at(v, b), Less());
				}
				std::sort_heap(at(v, a), at(v, b), Less());
				std::sort(at(m, a), at(m, b), Less());
				check();
				break;
			}
			case 28: {
				begin("transform of two ranges" + rg, "transform2");
				size_t k = (b - a) / 2;
				auto f = [](const T& x, const T& y) { return Mk::make((key(x) + 3 * key(y)) & 0xffffff); };
				std::transform(at(c, a), at(c, a + k), at(c, a + k), at(v, a), f);
				std::transform(at(m, a), at(m, a + k), at(m, a + k), at(m, a), f);
				check();
				break;
			}
			case 29: {
				begin("merge into" + rg, "merge");
				std::sort(at(v, a), at(v, b), Less());
				std::sort(at(m, a), at(m, b), Less());
				std::vector<T> x, y;
				for (size_t q = r.below(50); q; --q)
					x.push_back(val());
				std::sort(x.begin(), x.end(), Less());
				std::merge(at(c, a), at(c, b), x.begin(), x.end(), std::back_inserter(y), Less());
				V o(TAlloc<T>(0));
				std::merge(at(m, a), at(m, b), x.begin(), x.end(), std::back_inserter(o), Less());
				for (size_t q = 0; q < y.size() && !failed; ++q)
					if (o.size() != y.size() || !same(o[q].get(), y[q]))
						bad("alg:merge", vh::fmt("%s: element %zu", last.c_str(), q));
				check();
				break;
			}
			case 30: {
				begin("next_permutation" + rg, "next_permutation");
				size_t e = std::min(b, a + 12);
				bool i = std::next_permutation(at(v, a), at(v, e), Less());
				bool j = std::next_permutation(at(m, a), at(m, e), Less());
				same_res<int>(i, j);
				check();
				break;
			}
			case 31: {
				begin("rotate_copy and reverse_copy" + rg, "copies");
				M x, y;
				std::rotate_copy(at(c, a), at(c, mid), at(c, b), std::back_inserter(x));
				std::rotate_copy(at(m, a), at(m, mid), at(m, b), std::back_inserter(y));
				std::reverse_copy(at(v, a), at(v, b), std::back_inserter(x));
				std::reverse_copy(at(m, a), at(m, b), std::back_inserter(y));
				std::unique_copy(at(c, a), at(c, b), std::back_inserter(x), Eq());
				std::unique_copy(at(m, a), at(m, b), std::back_inserter(y), Eq());
				Odd p{ 1 + r.below(4) };
				std::remove_copy_if(at(c, a), at(c, b), std::back_inserter(x), p);
				std::remove_copy_if(at(m, a), at(m, b), std::back_inserter(y), p);
				bool ok = x.size() == y.size();
				for (size_t q = 0; ok && q < x.size(); ++q)
					ok = same(x[q], y[q]);
				if (!ok)
					bad("alg:copies", last + ": other copies than std::vector");
				check();
				break;
			}
			case 32: {
				begin("swap of references", "swap");
				if (n > 1)
					for (int q = 0; q < 10; ++q) {
						size_t x = r.below(n), y = r.below(n);
						if (x == y)
							continue;
						switch (r.below(3)) {
							case 0: std::iter_swap(at(v, x), at(v, y)); break;
							case 1: {
								auto i = v[x], j = v[y];
								std::swap(i, j);
								break;
							}
							default: swap(v[x], v[y]);
						}
						std::swap(m[x], m[y]);
					}
				check();
				break;
			}
			case 33: {
				begin("comparisons" + rg, "comparisons");
				size_t k = (b - a) / 2;
				same_res<int>(std::equal(at(c, a), at(c, a + k), at(c, a + k), Eq()), std::equal(at(m, a), at(m, a + k), at(m, a + k), Eq()));
				same_res<int>(std::lexicographical_compare(at(c, a), at(c, a + k), at(c, a + k), at(c, b), Less()), std::lexicographical_compare(at(m, a), at(m, a + k), at(m, a + k), at(m, b), Less()));
				same_pos(std::mismatch(at(c, a), at(c, a + k), at(c, a + k), Eq()).first - c.begin(), std::mismatch(at(m, a), at(m, a + k), at(m, a + k), Eq()).first - m.begin());
				same_pos(std::search(at(c, a), at(c, b), at(c, mid), at(c, std::min(b, mid + 3)), Eq()) - c.begin(), std::search(at(m, a), at(m, b), at(m, mid), at(m, std::min(b, mid + 3)), Eq()) - m.begin());
				check();
				break;
			}
			case 34: { // natural comparison operators, without comparator
				begin("sort with operator<" + rg, "sort_natural");
				std::sort(at(v, a), at(v, b));
				std::sort(at(m, a), at(m, b));
				check();
				for (int q = 0; q < 5 && !failed; ++q) {
					T x = n && r.chance(1, 2) ? m[r.below(n)] : val();
					same_pos(std::lower_bound(at(c, a), at(c, b), x) - c.begin(), std::lower_bound(at(m, a), at(m, b), x) - m.begin());
					same_pos(std::find(at(c, a), at(c, b), x) - c.begin(), std::find(at(m, a), at(m, b), x) - m.begin());
					same_res(std::count(at(v, a), at(v, b), x), std::count(at(m, a), at(m, b), x));
				}
				auto i = std::unique(at(v, a), at(v, b));
				auto j = std::unique(at(m, a), at(m, b));
				same_pos(vp(i), mp(j));
				if (!failed) {
					refresh((size_t)mp(j), b);
					check();
				}
				break;
			}
			default: {
				if (!n)
					break;
				begin("remove" + rg, "remove");
				T x = m[r.below(n)];
				auto i = std::remove(at(v, a), at(v, b), x);
				auto j = std::remove(at(m, a), at(m, b), x);
				same_pos(vp(i), mp(j));
				if (!failed) {
					refresh((size_t)mp(j), b);
					check();
				}
			}
		}
	}
	uint64_t history()
	{
		fill();
		cx.hist = vh::fmt("%zu elements (kind %d); ", m.size(), pat);
		uint64_t sig = m.size();
		size_t k = 2 + r.below(6);
		for (size_t i = 0; i < k && !failed; ++i) {
			one();
			if (r.chance(1, 8))
				v.shrink_to_fit();
			sig = vh::hcomb(sig, vh::fnv(last.data(), last.size()));
		}
		return sig;
	}
};

template<class T, unsigned BS, int L>
uint64_t algorithms(Rng& r, AlgCtx& c)
{
	ledger().reset();
	arena(0).reset();
	uint64_t sig;
	{
		Alg<T, BS, L> a(r, c);
		sig = a.history();
		if (!ledger().error.empty())
			a.bad("alg:object", a.last + ": " + ledger().error);
	}
	if (!ledger().error.empty())
		vh::violation("alg:object", c.name + " " + ledger().error + " | " + c.hist);
	else if (ledger().live)
		vh::violation("alg:object", c.name + vh::fmt(" %llu elements are never destroyed | ", (unsigned long long)ledger().live) + c.hist);
	if (!arena(0).error.empty())
		vh::violation("alg:memory", c.name + " " + arena(0).error + " | " + c.hist);
	arena(0).error.clear();
	return sig;
}
}
