// P23: how much a compressed vector keeps decompressed, what it really allocates, and what it says about it.
#include "cv.hpp"
#include <algorithm>
using namespace vh;
namespace cv {

template<class T, unsigned BS, int L>
struct Mem {
	using V = stenos::cvector<T, BS, L, TAlloc<T>>;
	using Mk = Make<T>;
	static constexpr size_t B = V::block_size;
	static constexpr size_t CB = B * sizeof(T);

	Rng& r;
	std::string name, hist;
	V v;
	const V& c;
	std::vector<T> m;
	int kind;
	uint64_t next = 0;
	bool failed = false;
	int pat;

	Mem(Rng& _r, const std::string& n)
	  : r(_r)
	  , name(n)
	  , v(TAlloc<T>(0))
	  , c(v)
	{
		pat = (int)r.below(4);
	}
	bool compressible() const { return pat < 3; }
	T val()
	{
		++next;
		switch (pat) {
			case 0: return Mk::make(7);
			case 1: return Mk::make(next >> 6);
			case 2: return Mk::make((next / 1000) * 3);
			default: return Mk::make(r.u64());
		}
	}
	void bad(const char* k, const std::string& s)
	{
		if (!failed)
			violation(k, name + fmt(" content %d, %zu elements (%zu chunks), ", pat, m.size(), m.size() / B) + s + " | " + hist);
		failed = true;
	}
	void op(const std::string& s)
	{
		hist += s + "; ";
		if (hist.size() > 1500)
			hist.erase(0, 500);
		note(name + " " + hist);
	}
	// A decompressed chunk is an allocation of at least the plain size of a chunk, and more than any compressed one.
	uint64_t chunks() { return arena(0).chunks; }
	uint64_t peak()
	{
		uint64_t p = arena(0).peak_chunks;
		arena(0).peak_chunks = arena(0).chunks;
		return p;
	}
	void bounded(const char* what)
	{
		uint64_t p = peak(), n = m.size() / B;
		if (p > 8 + n / 10)
			bad("mem:decompressed", fmt("%s keeps up to %llu chunks decompressed at once", what, (unsigned long long)p));
		maximum(std::string("peak_chunks_") + what, p);
		if (n >= 50)
			count("peaks_checked");
	}
	void footprint(const char* what)
	{
		size_t f = c.memory_footprint();
		uint64_t real = arena(0).bytes;
		// what is not allocated by the vector's allocator: the compression context
		static const uint64_t ctx = 2048 + 3 * CB;
		if (f > real + ctx || f + CB / 2 + 64 < real)
			bad("mem:footprint", fmt("after %s memory_footprint() is %zu, %llu bytes are allocated", what, f, (unsigned long long)real));
		if (v.size()) {
			float e = (float)(v.size() * sizeof(T)) / (float)f, g = c.current_compression_ratio();
			if (!(g > e * 0.999f && g < e * 1.001f))
				bad("mem:current-ratio", fmt("current_compression_ratio() is %g, size and footprint give %g", (double)g, (double)e));
		}
		count("footprints_checked");
		maximum("footprint_minus_allocated", f > real ? f - real : 0);
		maximum("allocated_minus_footprint", real > f ? real - f : 0);
	}
	void shrunk()
	{
		v.shrink_to_fit();
		op("shrink_to_fit");
		uint64_t k = chunks();
		if (k > 3)
			bad("mem:shrink-chunks", fmt("%llu chunks are still decompressed after shrink_to_fit", (unsigned long long)k));
		size_t plain = m.size() * sizeof(T);
		uint64_t real = arena(0).bytes, fixed = 4 * (CB + 256);
		uint64_t over = (m.size() / B + 1) * 64; // bookkeeping per chunk
		if (compressible() && L > 0 && real > fixed + over + plain / 4)
			bad("mem:shrink-size", fmt("%llu bytes are allocated after shrink_to_fit for %zu bytes of compressible content", (unsigned long long)real, plain));
		if (real > fixed + over + plain + plain / 16)
			bad("mem:shrink-size", fmt("%llu bytes are allocated after shrink_to_fit for %zu bytes", (unsigned long long)real, plain));
		footprint("shrink_to_fit");
		// the announced ratio of the compressed chunks, against the serialized ones
		if (std::is_trivially_copyable<T>::value && m.size() >= B && m.size() % B == 0) {
			std::vector<char> b(plain + 4 * (m.size() / B + 1) + 16);
			size_t s = v.serialize(b.data(), b.size());
			stenos_info inf;
			if (!stenos_has_error(s) && !stenos_has_error(stenos_get_info(b.data(), sizeof(T), s, &inf))) {
				float lo = (float)plain / (float)(s - 8), hi = (float)plain / (float)(s - 12), g = c.compression_ratio();
				if (!(g > lo * 0.999f && g < hi * 1.001f))
					bad("mem:ratio", fmt("compression_ratio() is %g, the chunks take %zu bytes for %zu", (double)g, s - 12, plain));
				count("ratios_checked");
			}
		}
		verify("shrink_to_fit");
		count("shrinks_checked");
	}
	void verify(const char* what)
	{
		size_t i = 0;
		bool ok = v.size() == m.size();
		c.for_each(0, v.size(), [&](const T& t) { ok = ok && same(t, m[i++]); });
		if (!ok || i != m.size())
			bad("mem:content", fmt("elements changed by %s", what));
	}
	void use()
	{
		size_t n = m.size();
		switch (r.below(11)) {
			case 0:
				op("read forward");
				for (size_t i = 0; i < n && !failed; i += 1 + r.below(B / 4))
					if (!same(c[i].get(), m[i]))
						bad("mem:content", fmt("element %zu", i));
				bounded("reading");
				break;
			case 1:
				op("read backward");
				for (size_t i = n; i-- > 0 && !failed; i -= std::min(i, (size_t)r.below(B / 4)))
					if (!same(c.at(i).get(), m[i]))
						bad("mem:content", fmt("element %zu", i));
				bounded("reading_backward");
				break;
			case 2: {
				op("read at random");
				for (size_t k = 0; k < 400; ++k) {
					size_t i = r.below(n);
					if (!same(c[i].get(), m[i]))
						bad("mem:content", fmt("element %zu", i));
				}
				bounded("random_reads");
				break;
			}
			case 3: {
				op("write at random");
				for (size_t k = 0; k < 400; ++k) {
					size_t i = r.below(n);
					T x = val();
					m[i] = dup(x);
					v[i] = std::move(x);
				}
				bounded("random_writes");
				break;
			}
			case 4: {
				op("modify all in order");
				size_t i = 0;
				v.for_each(0, n, [&](T& t) {
					T x = val();
					m[i++] = dup(x);
					t = std::move(x);
				});
				bounded("for_each");
				break;
			}
			case 5: {
				op("modify all backward");
				size_t i = n;
				v.for_each_backward(0, n, [&](T& t) {
					T x = val();
					m[--i] = dup(x);
					t = std::move(x);
				});
				bounded("for_each_backward");
				break;
			}
			case 6: {
				size_t k = r.below(20 * B);
				op(fmt("append %zu", k));
				while (k--) {
					T x = val();
					m.push_back(dup(x));
					v.push_back(std::move(x));
				}
				bounded("appending");
				break;
			}
			case 7: {
				op("iterate and modify");
				size_t i = 0;
				for (auto it = v.begin(); it != v.end(); ++it, ++i)
					if (i % 50 == 0) {
						T x = val();
						m[i] = dup(x);
						*it = std::move(x);
					}
				bounded("iterators");
				break;
			}
			case 8: {
				op("alternate between far chunks");
				for (size_t k = 0; k < 300; ++k) {
					size_t i = (k % 3) * (n / 3) + (k * 37) % (n / 3 + 1);
					if (i >= n)
						continue;
					if (k % 5 == 0) {
						T x = val();
						m[i] = dup(x);
						v[i] = std::move(x);
					}
					else if (!same(c[i].get(), m[i]))
						bad("mem:content", fmt("element %zu", i));
				}
				bounded("far_accesses");
				break;
			}
			case 9: {
				op("truncate and refill");
				size_t k = r.below(n / 2 + 1);
				v.resize(n - k);
				while (m.size() > n - k)
					m.pop_back();
				for (size_t i = 0; i < k; ++i) {
					T x = val();
					m.push_back(dup(x));
					v.emplace_back(std::move(x));
				}
				bounded("refilling");
				break;
			}
			default: {
				op("erase in the middle");
				size_t a = r.below(n), k = std::min<size_t>(n - a, r.below(3 * B));
				if (k == n)
					break;
				v.erase(v.cbegin() + (ptrdiff_t)a, v.cbegin() + (ptrdiff_t)(a + k));
				m.erase(m.begin() + (ptrdiff_t)a, m.begin() + (ptrdiff_t)(a + k));
				bounded("erasing");
			}
		}
		footprint("use");
		count("operations");
	}
	uint64_t history()
	{
		size_t n = B * (20 + r.below(r.chance(1, 3) ? 400 : 120)) + (r.chance(1, 2) ? r.below(B) : 0);
		if (n * sizeof(T) > 3000000)
			n = 3000000 / sizeof(T);
		if (Mk::tracked && n > 40000)
			n = 40000;
		m.reserve(n);
		// filled
		switch (r.below(3)) {
			case 0:
				op("push_back");
				for (size_t i = 0; i < n; ++i) {
					T x = val();
					m.push_back(dup(x));
					v.push_back(std::move(x));
				}
				break;
			case 1: {
				op("resize and write");
				v.resize(n);
				for (size_t i = 0; i < n; ++i)
					m.push_back(val());
				size_t i = 0;
				v.for_each(0, n, [&](T& t) { t = dup(m[i++]); });
				break;
			}
			default: {
				op("emplace_back");
				for (size_t i = 0; i < n; ++i) {
					T x = val();
					m.push_back(dup(x));
					v.emplace_back(std::move(x));
				}
			}
		}
		bounded("filling");
		if (compressible() && L > 0) {
			uint64_t pk = arena(0).peak;
			size_t plain = n * sizeof(T);
			if (pk > plain / 3 + 12 * (CB + 256) + (n / B + 1) * 160)
				bad("mem:filling-size", fmt("%llu bytes were allocated at once while filling the vector with %zu bytes of compressible content", (unsigned long long)pk, plain));
			count("fillings_checked");
		}
		footprint("filling");
		if (r.chance(1, 2))
			shrunk();
		uint64_t sig = hcomb(n, (uint64_t)pat);
		unsigned k = 2 + (unsigned)r.below(4);
		for (unsigned i = 0; i < k && !failed && m.size(); ++i) {
			use();
			sig = hcomb(sig, fnv(hist.data(), hist.size()));
		}
		if (!failed && m.size())
			shrunk();
		if (!failed && r.chance(1, 4)) {
			op("clear");
			v.clear();
			m.clear();
			v.shrink_to_fit();
			footprint("clear");
			if (arena(0).bytes > 8 * (CB + 256) + 4096)
				bad("mem:clear", fmt("%llu bytes are allocated after clear and shrink_to_fit", (unsigned long long)arena(0).bytes));
		}
		return sig;
	}
};

template<class T, unsigned BS, int L>
static void go(Rng& r, const char* name)
{
	using V = stenos::cvector<T, BS, L, TAlloc<T>>;
	ledger().reset();
	arena(0).reset();
	// size of the allocation of a decompressed chunk: the biggest one of a vector of one element
	static uint64_t chunk = 0;
	if (!chunk) {
		arena(0).chunk_size = 0;
		V v(TAlloc<T>(0));
		v.push_back(Make<T>::make(1));
		for (auto& b : arena(0).blocks)
			chunk = std::max<uint64_t>(chunk, b.second);
	}
	if (chunk < V::block_size * sizeof(T))
		violation("mem:chunk", std::string(name) + ": no allocation of a chunk was seen");
	arena(0).reset();
	arena(0).chunk_size = chunk;
	{
		Mem<T, BS, L> h{ r, name };
		uint64_t sig = h.history();
		evaluated(hcomb(sig, sizeof(T)));
	}
	arena(0).error.clear();
	arena(0).chunk_size = 0;
}
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		unsigned k = (unsigned)r.below(7);
		switch (k) {
			case 0: cv::go<uint8_t, 0, 1>(r, "cvector<uint8_t,0,1>"); break;
			case 1: cv::go<int32_t, 0, 1>(r, "cvector<int32_t,0,1>"); break;
			case 2: cv::go<cv::P<12>, 1, 2>(r, "cvector<P<12>,1,2>"); break;
			case 3: cv::go<cv::T24, 0, 1>(r, "cvector<T24,0,1>"); break;
			case 4: cv::go<uint16_t, 2, 3>(r, "cvector<uint16_t,2,3>"); break;
			case 5: cv::go<uint64_t, 0, 1>(r, "cvector<uint64_t,0,1>"); break;
			default: cv::go<double, 1, 0>(r, "cvector<double,1,0>");
		}
		count(fmt("config_%u", k));
		if (i < 3)
			sample(st().status ? st().status : "");
	});
}
