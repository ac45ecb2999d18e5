// P20: element references held across other uses of the vector keep their address, their value and the writes made through them.
#include "cv.hpp"
#include <algorithm>
#include <deque>
using namespace vh;
namespace cv {

template<class T, unsigned BS, int L>
struct Refs {
	using V = stenos::cvector<T, BS, L, TAlloc<T>>;
	using Ref = typename std::decay<decltype(std::declval<V&>().at(0))>::type;
	using CRef = typename std::decay<decltype(std::declval<const V&>().at(0))>::type;
	using It = typename V::iterator;
	using CIt = typename V::const_iterator;
	using Mk = Make<T>;
	static constexpr size_t B = V::block_size;
	static constexpr bool COPY = std::is_copy_constructible<T>::value;

	struct Held {
		int kind; // 0 reference, 1 const reference, 2 iterator, 3 const iterator
		size_t pos;
		std::unique_ptr<Ref> ref;
		std::unique_ptr<CRef> cref;
		std::unique_ptr<It> it;
		std::unique_ptr<CIt> cit;
		const T* addr;
		const T* get() const
		{
			switch (kind) {
				case 0: return &ref->get();
				case 1: return &cref->get();
				case 2: return &(**it).get();
				default: return &(**cit).get();
			}
		}
	};

	Rng& r;
	std::string name, hist;
	V v;
	const V& c;
	std::vector<T> m;
	std::vector<Held> held;
	uint64_t next = 0;
	bool failed = false;

	Refs(Rng& _r, const std::string& n)
	  : r(_r)
	  , name(n)
	  , v(TAlloc<T>(0))
	  , c(v)
	{
	}
	T val() { return Mk::make(r.chance(1, 2) ? ++next : r.u64() >> 3); }
	void op(const std::string& s)
	{
		hist += s + "; ";
		if (hist.size() > 3000)
			hist.erase(0, 1000);
		note(name + " " + (hist.size() > 1500 ? hist.substr(hist.size() - 1500) : hist));
		count("operations");
	}
	void bad(const char* k, const std::string& s)
	{
		if (!failed)
			violation(k, name + " " + s + " | history: " + (hist.size() > 900 ? "..." + hist.substr(hist.size() - 900) : hist));
		failed = true;
	}
	size_t pos()
	{
		size_t n = m.size(), p;
		switch (r.below(5)) {
			case 0: p = B * r.below(n / B + 1) + (r.chance(1, 2) ? 0 : (size_t)-1); break;
			case 1: p = n - 1; break;
			case 2: // in a chunk that is held
				p = held.empty() ? r.below(n) : held[r.below(held.size())].pos / B * B + r.below(B);
				break;
			default: p = r.below(n);
		}
		return p < n ? p : r.below(n);
	}
	void hold()
	{
		Held h;
		h.kind = (int)r.below(4);
		h.pos = pos();
		switch (h.kind) {
			case 0:
				switch (r.below(4)) {
					case 0: h.ref.reset(new Ref(v[h.pos])); break;
					case 1: h.ref.reset(new Ref(v.at(h.pos))); break;
					case 2: { // copy of another reference
						Ref a = v[h.pos];
						h.ref.reset(new Ref(a));
						break;
					}
					default:
						if (r.chance(1, 2)) {
							h.pos = 0;
							h.ref.reset(new Ref(v.front()));
						}
						else {
							h.pos = m.size() - 1;
							h.ref.reset(new Ref(v.back()));
						}
				}
				break;
			case 1: h.cref.reset(new CRef(r.chance(1, 2) ? c[h.pos] : c.at(h.pos))); break;
			case 2:
				h.it.reset(new It(v.begin() + (ptrdiff_t)h.pos));
				(void)**h.it;
				break;
			default: h.cit.reset(new CIt(c.begin() + (ptrdiff_t)h.pos)); (void)**h.cit;
		}
		op(fmt("hold %d at %zu", h.kind, h.pos));
		h.addr = h.get();
		count(fmt("held_%d", h.kind));
		held.push_back(std::move(h));
		maximum("references_held", held.size());
	}
	void write(size_t k)
	{
		Held& h = held[k];
		T x = val();
		op(fmt("write %zu through a reference of kind %d", h.pos, h.kind));
		m[h.pos] = dup(x);
		if (h.kind == 0) {
			switch (r.below(3)) {
				case 0: *h.ref = std::move(x); break;
				case 1: h.ref->set(std::move(x)); break;
				default: { // through a copy of the reference
					Ref q(*h.ref);
					q = std::move(x);
				}
			}
		}
		else if (h.kind == 2)
			**h.it = std::move(x);
		else
			v[h.pos] = std::move(x); // seen through the const reference
		count("writes");
	}
	// the iterator is moved: it now holds another element
	void step(size_t k)
	{
		Held& h = held[k];
		if (h.kind < 2)
			return;
		ptrdiff_t d = r.chance(1, 2) ? 1 : r.chance(1, 2) ? -1 : (ptrdiff_t)r.below(3 * B) - (ptrdiff_t)(3 * B / 2);
		ptrdiff_t p = (ptrdiff_t)h.pos + d;
		if (p < 0 || p >= (ptrdiff_t)m.size())
			return;
		op(fmt("move the iterator %zu by %td", h.pos, d));
		if (h.kind == 2) {
			if (d == 1)
				++*h.it;
			else if (d == -1)
				--*h.it;
			else
				*h.it += d;
		}
		else {
			if (d == 1)
				++*h.cit;
			else if (d == -1)
				--*h.cit;
			else
				*h.cit += d;
		}
		h.pos = (size_t)p;
		h.addr = h.get();
		count("iterators_moved");
	}
	void check(size_t k, const char* when)
	{
		const Held& h = held[k];
		const T* a = h.get();
		if (a != h.addr)
			return bad("ref:address", fmt("%s: the element %zu held by a reference of kind %d has moved", when, h.pos, h.kind));
		// also through the address kept since the reference was taken: memory released meanwhile is reported by ASan
		if (!same(*h.addr, m[h.pos]))
			return bad("ref:value", fmt("%s: the held element %zu (kind %d) is %llx, expected %llx", when, h.pos, h.kind, (unsigned long long)Mk::code(*h.addr), (unsigned long long)Mk::code(m[h.pos])));
		if (h.kind == 0) {
			const T& t = *h.ref;
			if (&t != h.addr)
				bad("ref:address", fmt("%s: conversion of the held reference %zu", when, h.pos));
		}
		count("held_checks");
	}
	bool pinned(size_t chunk)
	{
		for (auto& h : held)
			if (h.pos / B == chunk)
				return true;
		return false;
	}
	void pressure()
	{
		size_t n = m.size();
		switch (r.below(9)) {
			case 0: { // many other chunks, read
				size_t k = 1 + r.below(40);
				op(fmt("read %zu elements", k));
				for (size_t i = 0; i < k; ++i) {
					size_t p = pos();
					CRef q = c[p];
					if (!same(q.get(), m[p]))
						return bad("ref:other-value", fmt("element %zu read meanwhile is wrong", p));
				}
				break;
			}
			case 1: { // many other chunks, modified
				size_t k = 1 + r.below(40);
				op(fmt("write %zu elements", k));
				for (size_t i = 0; i < k; ++i) {
					size_t p = pos();
					T x = val();
					m[p] = dup(x);
					v[p] = std::move(x);
				}
				break;
			}
			case 2:
			case 3: {
				size_t k = r.chance(1, 3) ? r.below(3 * B) : r.below(5);
				op(fmt("append %zu", k));
				for (size_t i = 0; i < k; ++i) {
					T x = val();
					m.push_back(dup(x));
					if (r.chance(1, 2))
						v.push_back(std::move(x));
					else
						v.emplace_back(std::move(x));
				}
				break;
			}
			case 4:
				op("shrink_to_fit");
				v.shrink_to_fit();
				count("shrinks");
				break;
			case 5:
				if (std::is_trivially_copyable<T>::value) {
					std::vector<char> b(m.size() * sizeof(T) + 4 * (m.size() / B + 1) + 16);
					op("serialize");
					size_t k = v.serialize(b.data(), b.size());
					if (stenos_has_error(k))
						bad("ref:serialize", "serialization with held references failed");
					else {
						std::vector<T> o(m.size());
						size_t q = stenos_decompress(b.data(), sizeof(T), k, (void*)o.data(), m.size() * sizeof(T));
						if (q != m.size() * sizeof(T) || memcmp((const void*)o.data(), (const void*)m.data(), q))
							bad("ref:serialized-value", "the serialized bytes miss writes made through held references");
					}
					count("serializations");
				}
				break;
			case 6: { // const traversal, also over the held elements
				size_t a = r.below(n), b = a + r.below(n - a + 1), i = a;
				op(fmt("const for_each [%zu,%zu)", a, b));
				bool ok = true;
				c.for_each(a, b, [&](const T& t) { ok = ok && same(t, m[i++]); });
				if (!ok || i != b)
					bad("ref:other-value", "wrong values seen by for_each meanwhile");
				break;
			}
			case 7: { // modification of a whole chunk nobody holds
				size_t k = r.below(n / B + 1);
				if (pinned(k))
					break;
				op(fmt("for_each on chunk %zu", k));
				size_t a = k * B, b = std::min(n, a + B), i = a;
				v.for_each(a, b, [&](T& t) {
					T x = val();
					m[i++] = dup(x);
					t = std::move(x);
				});
				break;
			}
			default: { // full pass with iterators
				op("iterate");
				size_t i = 0;
				bool ok = true;
				for (const auto& x : c)
					ok = ok && same(static_cast<const T&>(x), m[i++]);
				if (!ok || i != n)
					bad("ref:other-value", "wrong values seen by iteration meanwhile");
			}
		}
	}
	// very many references to the same chunks, held across one of the operations above
	void crowd()
	{
		std::deque<Ref> many;
		size_t k = r.chance(1, 2) ? 300 + r.below(5000) : 66000 + r.below(10000), p[3] = { pos(), pos(), pos() };
		op(fmt("hold %zu references to %zu, %zu, %zu", k, p[0], p[1], p[2]));
		for (size_t i = 0; i < k; ++i)
			many.emplace_back(v[p[i % 3]]);
		std::vector<const T*> addr;
		for (size_t i = 0; i < 3; ++i)
			addr.push_back(&many[i].get());
		switch (r.below(4)) {
			case 0: v.shrink_to_fit(); break;
			case 1:
				for (size_t i = 0; i < 30; ++i)
					if (size_t q = pos(); !same(c[q].get(), m[q]))
						return bad("ref:other-value", fmt("element %zu read meanwhile is wrong", q));
				break;
			case 2:
				for (size_t i = 0; i < B; ++i) {
					T x = val();
					m.push_back(dup(x));
					v.push_back(std::move(x));
				}
				break;
			default: {
				T x = val();
				m[p[0]] = dup(x);
				many[0] = std::move(x);
			}
		}
		for (size_t i = 0; i < k; i += 1 + r.below(50))
			if (&many[i].get() != addr[i % 3] || !same(many[i].get(), m[p[i % 3]]))
				return bad("ref:value", fmt("one of %zu references held, to element %zu, has changed", k, p[i % 3]));
		count("crowds");
		maximum("references_to_three_elements", k);
	}
	uint64_t history(size_t ops)
	{
		static const size_t sz[] = { 1, B, 10 * B, 40 * B, 100 * B };
		size_t n = sz[r.below(5)];
		n += r.below(n + 1);
		if (n > 9000 && Mk::tracked)
			n = 9000;
		for (size_t i = 0; i < n; ++i) {
			T x = val();
			m.push_back(dup(x));
			v.push_back(std::move(x));
		}
		if (r.chance(1, 2))
			v.shrink_to_fit();
		hist = fmt("%zu elements; ", n);
		size_t most = 1 + r.below(r.chance(1, 4) ? 60 : 8);
		uint64_t sig = 0;
		if (r.chance(1, 25))
			crowd();
		for (size_t i = 0; i < ops && !failed; ++i) {
			unsigned o = (unsigned)r.below(10);
			if (held.empty() || (o < 3 && held.size() < most))
				hold();
			else if (o == 3) {
				size_t k = r.below(held.size());
				op(fmt("release %zu", held[k].pos));
				held.erase(held.begin() + (ptrdiff_t)k);
			}
			else if (o == 4)
				write(r.below(held.size()));
			else if (o == 5)
				step(r.below(held.size()));
			else if (o == 6 && held.size() > 1) {
				Held &a = held[r.below(held.size())], &b = held[r.below(held.size())];
				if (a.kind == 0 && b.kind == 0) {
					unsigned how = (unsigned)r.below(3);
					op(fmt("exchange %u %zu %zu", how, a.pos, b.pos));
					if (how == 0) {
						a.ref->swap(*b.ref);
						std::swap(m[a.pos], m[b.pos]);
					}
					else if (how == 1) {
						std::swap(*a.ref, *b.ref);
						std::swap(m[a.pos], m[b.pos]);
					}
					else {
						T t(std::move(a.ref->move()));
						*a.ref = std::move(t);
					}
					count("exchanges");
				}
			}
			else
				pressure();
			for (size_t k = 0; k < held.size() && !failed; ++k)
				check(k, "while held");
			sig = hcomb(sig, hcomb(o, held.empty() ? 0 : held.back().pos));
			maximum("decompressed_chunks", arena(0).chunks);
		}
		// everything is released: the writes have to survive the recycling of the chunks
		held.clear();
		if (!failed) {
			op("release all");
			for (int pass = 0; pass < 2; ++pass) {
				size_t i = 0;
				bool ok = v.size() == m.size();
				c.for_each(0, v.size(), [&](const T& t) {
					if (ok && i < m.size() && !same(t, m[i])) {
						bad("ref:lost-write", fmt("once released: element %zu is %llx, expected %llx", i, (unsigned long long)Mk::code(t), (unsigned long long)Mk::code(m[i])));
						ok = false;
					}
					++i;
				});
				if (!ok || i != m.size())
					bad("ref:content", "content after the release");
				v.shrink_to_fit();
			}
		}
		return sig;
	}
};

template<class T, unsigned BS, int L>
static void go(Rng& r, const char* name)
{
	ledger().reset();
	arena(0).reset();
	arena(0).chunk_size = 0;
	uint64_t sig;
	{
		Refs<T, BS, L> h{ r, name };
		sig = h.history(10 + r.below(50));
		evaluated(hcomb(sig, sizeof(T)));
		if (!arena(0).error.empty())
			h.bad("ref:memory", arena(0).error);
		if (!ledger().error.empty())
			h.bad("ref:object", ledger().error);
	}
	arena(0).error.clear();
}
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		unsigned k = (unsigned)r.below(7);
		switch (k) {
			case 0: cv::go<uint8_t, 0, 1>(r, "cvector<uint8_t,0,1>"); break;
			case 1: cv::go<int32_t, 0, 1>(r, "cvector<int32_t,0,1>"); break;
			case 2: cv::go<cv::P<12>, 1, 2>(r, "cvector<P<12>,1,2>"); break;
			case 3: cv::go<cv::T24, 0, 1>(r, "cvector<T24,0,1>"); break;
			case 4: cv::go<cv::M12, 0, 1>(r, "cvector<M12,0,1>"); break;
			case 5: cv::go<uint64_t, 0, 3>(r, "cvector<uint64_t,0,3>"); break;
			default: cv::go<cv::P<100>, 0, 0>(r, "cvector<P<100>,0,0>");
		}
		count(fmt("config_%u", k));
		if (i < 3)
			sample(st().status ? st().status : "");
	});
}
