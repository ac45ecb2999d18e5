// P18, P19: serialization of compressed vectors.
#pragma once
#include "cv.hpp"
#include "gen.hpp"
#include "guard.hpp"
#include "mutate.hpp"
#include <fstream>

namespace cvser {
using namespace vh;
using cv::P;
using gen::Bytes;

// Minimal output "stream" handing every piece to a callback: what serialize() requires is write(), tellp() and operator!.
struct Sink {
	Bytes out;
	size_t start = 0, fail_at = (size_t)-1;
	bool bad = false;
	size_t writes = 0;
	Sink& write(const char* p, size_t n)
	{
		++writes;
		if (bad || out.size() + n > fail_at) {
			bad = true;
			return *this;
		}
		out.insert(out.end(), (const uint8_t*)p, (const uint8_t*)p + n);
		return *this;
	}
	size_t tellp() const { return start + out.size(); }
	bool operator!() const { return bad; }
};

template<class T>
inline void fill_elems(Rng& r, std::vector<T>& m, size_t n, std::string& desc)
{
	m.resize(n);
	if (!n)
		return;
	int kind = (int)r.below(gen::KINDS);
	desc += gen::kind_names[kind];
	Bytes b(n * sizeof(T));
	gen::fill(r, b.data(), b.size(), sizeof(T), kind);
	memcpy((void*)m.data(), b.data(), b.size());
}
template<class V, class T>
inline std::string differs(V& v, const std::vector<T>& m)
{
	if (v.size() != m.size())
		return fmt("%zu elements, expected %zu", v.size(), m.size());
	size_t i = 0, bad = (size_t)-1;
	const V& c = v;
	size_t k = c.for_each(0, m.size(), [&](const T& x) {
		if (bad == (size_t)-1 && memcmp(&x, &m[i], sizeof(T)))
			bad = i;
		++i;
	});
	if (k != m.size() || i != m.size())
		return fmt("for_each visits %zu of %zu elements", k, m.size());
	if (bad != (size_t)-1)
		return fmt("element %zu of %zu differs", bad, m.size());
	return "";
}

// Build a vector holding m, through a history that leaves chunks in different states.
template<class V, class T>
inline void build(Rng& r, V& v, std::vector<T>& m)
{
	switch (r.below(4)) {
		case 0:
			for (auto& x : m)
				v.push_back(x);
			break;
		case 1: v.assign(m.begin(), m.end()); break;
		case 2: v.insert(v.end(), m.begin(), m.end()); break;
		default: {
			v.resize(m.size());
			for (size_t i = 0; i < m.size(); ++i)
				v[i] = m[i];
		}
	}
	for (int k = (int)r.below(5); k > 0; --k) {
		if (r.chance(1, 3))
			v.shrink_to_fit();
		else if (!m.empty()) {
			size_t i = r.below(m.size()), j = r.below(m.size());
			T t = m[j];
			v[i] = t;
			m[i] = t;
		}
	}
}

// P18
template<class T, unsigned BS, int L, int L2>
uint64_t roundtrip(Rng& r, const char* name, const std::string& scratch)
{
	using V = stenos::cvector<T, BS, L>;
	using V2 = stenos::cvector<T, BS, L2>;
	using VX = stenos::cvector<T, BS + 1, L>;
	const size_t B = V::block_size, sb = B * sizeof(T);
	std::string d = name;
	d += " ";
	std::vector<T> m;
	size_t n;
	switch (r.below(7)) {
		case 0: n = r.below(20); break;
		case 1: n = r.below(B + 2); break;
		case 2: n = B * r.below(9); break; // the last chunk is full
		case 3: n = B * r.below(9) + r.below(17); break;
		case 4: n = B * (1 + r.below(6)) - r.below(17); break;
		default: n = r.below(B * 9);
	}
	if (n * sizeof(T) > 1500000)
		n %= 1500000 / sizeof(T);
	fill_elems(r, m, n, d);
	V v;
	build(r, v, m);
	d += fmt(" n=%zu", n);
	note(d);
	auto fail = [&](const char* key, const std::string& e) { violation(std::string("ser:") + key, d + ": " + e); };
	auto source = [&](const char* when) {
		std::string e = differs(v, m);
		if (!e.empty())
			fail("source", std::string("the source changed after ") + when + ": " + e);
	};

	// references held meanwhile, with a write through one of them
	struct Held {
		typename V::ref_type ref;
		size_t i;
		const T* p;
	};
	std::vector<Held> held;
	if (n && r.chance(1, 3))
		for (int k = 0; k < 3; ++k) {
			size_t i = r.below(n);
			T t = m[r.below(n)];
			held.push_back(Held{ v[i], i, nullptr });
			held.back().ref = t;
			held.back().p = &held.back().ref.get();
			m[i] = t;
		}

	// to memory
	size_t bound = 12 + n * sizeof(T) + 4 * (n / B + 1);
	Guard g;
	uint8_t* out = g.high(bound);
	memset(g.begin(), 0x77, g.capacity());
	size_t k = v.serialize(out, bound);
	if (stenos_has_error(k) || k > bound)
		return fail("refused", fmt("serialize into %zu bytes returned %zd", bound, (ssize_t)k)), 0;
	for (size_t i = k; i < bound; ++i)
		if (out[i] != 0x77) {
			fail("outside", fmt("byte %zu written after a serialization of %zu bytes", i, k));
			break;
		}
	if (out > g.begin() && out[-1] != 0x77)
		fail("outside", "byte before the destination written");
	Bytes f(out, out + k);
	source("serialize to memory");
	count("to_memory");
	maximum("serialized_bytes", k);

	// too small destinations are refused
	for (int q = 0; q < 2; ++q) {
		size_t cap = q ? r.below(k) : k - 1;
		uint8_t* o = g.high(cap);
		size_t x = v.serialize(o, cap);
		if (!stenos_has_error(x))
			fail("overflow", fmt("serialize of %zu bytes into %zu returned %zd", k, cap, (ssize_t)x));
	}
	{ // exactly enough
		uint8_t* o = g.high(k);
		size_t x = v.serialize(o, k);
		if (x != k)
			fail("exact", fmt("serialize of %zu bytes into exactly that room returned %zd", k, (ssize_t)x));
		else {
			V2 w;
			size_t y = w.deserialize(o, k);
			std::string e = y == n ? differs(w, m) : fmt("deserialize returned %zd", (ssize_t)y);
			if (!e.empty())
				fail("exact", "second serialization: " + e);
		}
	}
	source("more serializations");

	// the frame is one of the plain codec
	{
		Bytes o;
		ref::Stats st;
		std::string e = ref::decode(f.data(), f.size(), sizeof(T), o, &st);
		if (!e.empty() || o.size() != n * sizeof(T) || (n && memcmp(o.data(), m.data(), o.size())))
			fail("reference", "the reference decoder reads something else from the serialized bytes " + e);
		Bytes p(n * sizeof(T) + 1, 0x21);
		size_t x = stenos_decompress(f.data(), sizeof(T), f.size(), p.data(), n * sizeof(T));
		if (x != n * sizeof(T) || (n && memcmp(p.data(), m.data(), x)) || p.back() != 0x21)
			fail("plain", fmt("stenos_decompress of the serialized bytes returned %zd for %zu bytes", (ssize_t)x, n * sizeof(T)));
		stenos_context* c = stenos_make_context();
		stenos_set_threads(c, 1 + (int)r.below(5));
		std::fill(p.begin(), p.end(), 0x22);
		x = stenos_decompress_generic(c, f.data(), sizeof(T), f.size(), p.data(), n * sizeof(T));
		if (x != n * sizeof(T) || (n && memcmp(p.data(), m.data(), x)))
			fail("plain", fmt("stenos_decompress_generic of the serialized bytes returned %zd", (ssize_t)x));
		stenos_destroy_context(c);
		stenos_info inf;
		x = stenos_get_info(f.data(), sizeof(T), f.size(), &inf);
		if (stenos_has_error(x) || inf.decompressed_size != n * sizeof(T) || inf.superblock_size != sb)
			fail("info", fmt("stenos_get_info: %zd, size %zu superblock %zu", (ssize_t)x, inf.decompressed_size, inf.superblock_size));
		count("plain_decodings");
	}

	// back from memory, over other contents
	auto check_back = [&](V2& w, size_t got, const char* from) {
		if (got != n)
			return fail("deserialize", fmt("deserialize from %s returned %zd for %zu elements", from, (ssize_t)got, n));
		std::string e = differs(w, m);
		if (!e.empty())
			return fail("content", std::string("deserialized from ") + from + ": " + e);
		if (n == 0)
			return;
		// still a working vector
		std::vector<T> mm = m;
		for (int q = 0; q < 10; ++q) {
			size_t i = r.below(mm.size()), j = r.below(mm.size());
			T t = mm[j];
			w[i] = t;
			mm[i] = t;
		}
		for (size_t q = r.below(30); q > 0; --q) {
			T t = mm[r.below(mm.size())];
			w.push_back(t);
			mm.push_back(t);
		}
		if (r.chance(1, 2)) {
			size_t cut = r.below(mm.size());
			w.resize(cut);
			mm.resize(cut);
		}
		if (r.chance(1, 3))
			w.shrink_to_fit();
		e = differs(w, mm);
		if (!e.empty())
			fail("afterwards", std::string("a vector deserialized from ") + from + " and then modified: " + e);
		count("deserialized");
	};
	V2 w;
	if (r.chance(1, 2))
		w.resize(r.below(2000));
	{
		uint8_t* o = g.high(f.size());
		memcpy(o, f.data(), f.size());
		check_back(w, w.deserialize(o, f.size()), "memory");
	}

	// streams, several frames one behind the other with foreign bytes between them
	{
		std::string pre(r.below(40), 'x');
		std::vector<T> m2;
		std::string d2;
		fill_elems(r, m2, r.below(B * 3), d2);
		V v2(m2.begin(), m2.end());
		std::ostringstream os;
		os << pre;
		size_t a = v.serialize(os), b = v2.serialize(os);
		os << "tail";
		std::string s = os.str();
		if (stenos_has_error(a) || stenos_has_error(b) || s.size() != pre.size() + a + b + 4) {
			fail("stream", fmt("serialize to a stream returned %zd and %zd for %zu bytes", (ssize_t)a, (ssize_t)b, s.size() - pre.size() - 4));
			return 0;
		}
		source("serialize to a stream");
		std::istringstream is(s);
		is.seekg((std::streamoff)pre.size());
		V2 w2;
		if (r.chance(1, 2))
			w2 = w;
		check_back(w2, w2.deserialize(is), "a stream");
		if ((size_t)is.tellg() != pre.size() + a)
			fail("consumed", fmt("deserialize leaves the stream at %zd, the frame ends at %zu", (ssize_t)is.tellg(), pre.size() + a));
		else {
			V2 w3;
			size_t x = w3.deserialize(is);
			std::string e = x == m2.size() ? differs(w3, m2) : fmt("returned %zd", (ssize_t)x);
			std::string rest;
			is >> rest;
			if (!e.empty() || rest != "tail")
				fail("consumed", "second frame of a stream: " + e + " rest '" + rest + "'");
		}
		count("to_stream");
	}
	{
		Sink sk;
		sk.start = r.below(100);
		size_t x = v.serialize(sk);
		if (x != sk.out.size() || stenos_has_error(x))
			fail("callback", fmt("serialize to a callback returned %zd for %zu bytes", (ssize_t)x, sk.out.size()));
		else
			check_back(w, w.deserialize(sk.out.data(), x), "a callback");
		// a sink that refuses to go on
		Sink s2;
		s2.fail_at = r.below(sk.out.size());
		x = v.serialize(s2);
		if (!stenos_has_error(x))
			fail("callback", fmt("serialize to a sink refusing after %zu bytes returned %zd", s2.fail_at, (ssize_t)x));
		source("a failed serialization");
		count("to_callback");
	}
	if (r.chance(1, 6)) { // a file
		std::string path = scratch + fmt("/ser-%d", (int)getpid());
		{
			std::ofstream of(path, std::ios::binary);
			size_t x = v.serialize(of);
			if (stenos_has_error(x))
				fail("file", fmt("serialize to a file returned %zd", (ssize_t)x));
		}
		std::ifstream fi(path, std::ios::binary);
		check_back(w, w.deserialize(fi), "a file");
		unlink(path.c_str());
		count("to_file");
	}

	// a plain frame with the same block size
	{
		Bytes raw((const uint8_t*)m.data(), (const uint8_t*)m.data() + n * sizeof(T));
		int level = r.chance(1, 10) ? (int)r.below(10) : (int)r.below(5);
		if (sb < STENOS_MAX_BLOCK_BYTES) {
			Bytes pf = mut::compress(raw, sizeof(T), level, BS, 1 + (int)r.below(4));
			if (pf.empty())
				fail("plain-frame", "compression refused");
			else {
				check_back(w, w.deserialize(pf.data(), pf.size()), "a plain frame");
				std::istringstream is(std::string((const char*)pf.data(), pf.size()) + "z");
				V2 w2;
				check_back(w2, w2.deserialize(is), "a stream with a plain frame");
				if ((size_t)is.tellg() != pf.size())
					fail("consumed", fmt("deserialize leaves the stream at %zd, the plain frame ends at %zu", (ssize_t)is.tellg(), pf.size()));
				count("plain_frames");
				count(fmt("plain_frames_shift_%u", pf[0]));
			}
		}
	}
	// a plain frame of the default block size, where it happens to be the same
	if (n && (BS >= 9 || sizeof(T) >= 128)) {
		Bytes raw((const uint8_t*)m.data(), (const uint8_t*)m.data() + n * sizeof(T));
		for (int level = 0; level < 4; ++level) {
			Bytes pf = mut::compress(raw, sizeof(T), level, STENOS_NO_BLOCK_SHIFT);
			stenos_info inf;
			if (pf.empty() || stenos_has_error(stenos_get_info(pf.data(), sizeof(T), pf.size(), &inf)) || inf.superblock_size != sb)
				continue;
			check_back(w, w.deserialize(pf.data(), pf.size()), "a default plain frame");
			std::istringstream is(std::string((const char*)pf.data(), pf.size()) + "z");
			V2 w2;
			check_back(w2, w2.deserialize(is), "a stream with a default plain frame");
			if ((size_t)is.tellg() != pf.size())
				fail("consumed", fmt("deserialize leaves the stream at %zd, the plain frame ends at %zu", (ssize_t)is.tellg(), pf.size()));
			count(fmt("plain_frames_shift_%u", pf[0]));
		}
	}
	// another block size is refused
	{
		VX x;
		x.resize(r.below(50));
		size_t y = x.deserialize(f.data(), f.size());
		if (!stenos_has_error(y) || x.size())
			fail("block-size", fmt("a vector with another block size accepts the frame (%zd, %zu elements)", (ssize_t)y, x.size()));
	}
	// held references
	for (auto& h : held)
		if (&h.ref.get() != h.p || memcmp(h.p, &m[h.i], sizeof(T)))
			fail("held", fmt("a reference to element %zu held during the serializations moved or changed", h.i));
	source("everything");
	return fnv(f.data(), f.size());
}
} // namespace cvser
