// P19: hostile bytes and broken streams given to cvector::deserialize.
#include "cvser.hpp"
#include "zstdregion.hpp"
#include <sys/wait.h>
using namespace vh;
using namespace cvser;

// A stream buffer that breaks: short reads, failure or exception at a position, no seeking.
struct BrokenBuf : std::streambuf {
	const Bytes& b;
	size_t pos = 0, fail_at, piece;
	bool throws, seekable;
	char one[64];
	BrokenBuf(const Bytes& _b, size_t f, size_t p, bool t, bool s)
	  : b(_b)
	  , fail_at(f)
	  , piece(p)
	  , throws(t)
	  , seekable(s)
	{
	}
	int_type underflow() override
	{
		if (pos >= fail_at) {
			if (throws)
				throw std::runtime_error("broken stream");
			return traits_type::eof();
		}
		if (pos >= b.size())
			return traits_type::eof();
		size_t n = std::min(std::min(piece, sizeof one), std::min(b.size(), fail_at) - pos);
		memcpy(one, b.data() + pos, n);
		setg(one, one, one + n);
		pos += n;
		return traits_type::to_int_type(one[0]);
	}
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
	{
		if (!seekable)
			return pos_type(off_type(-1));
		off_type cur = (off_type)pos - (egptr() - gptr());
		off_type t = d == std::ios::beg ? o : d == std::ios::cur ? cur + o : (off_type)b.size() + o;
		if (t < 0 || t > (off_type)b.size())
			return pos_type(off_type(-1));
		pos = (size_t)t;
		setg(nullptr, nullptr, nullptr);
		return pos_type(t);
	}
};

template<class T, unsigned BS, int L>
struct Hostile {
	using V = stenos::cvector<T, BS, L, cv::TAlloc<T>>;
	static constexpr size_t sb = V::block_size * sizeof(T);
	Rng& r;
	std::string name;

	// The whole content of an accepted frame, in a child: a chunk that turns out to be corrupted aborts by design.
	void access(V& v, const std::string& d)
	{
		pid_t p = fork();
		if (p == 0) {
			alarm(100);
			size_t n = v.size(), k = 0;
			uint64_t h = 0;
			const V& c = v;
			c.for_each(0, n, [&](const T& x) {
				h = fnv(&x, sizeof x, h);
				++k;
			});
			if (k != n)
				_exit(50);
			if (n) {
				T t = c[n / 2];
				v[0] = t;
				v.push_back(t);
				v.shrink_to_fit();
				if (memcmp(&c.front().get(), &t, sizeof t) || memcmp(&c.back().get(), &t, sizeof t))
					_exit(51);
				std::ostringstream o;
				v.serialize(o);
			}
			_exit(0);
		}
		int s = 0;
		waitpid(p, &s, 0);
		touch();
		if (WIFEXITED(s) && WEXITSTATUS(s) == 0)
			count("accessed");
		else if (WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT)
			count("corrupted_chunks_aborted");
		else if (WIFSIGNALED(s) && WTERMSIG(s) == SIGALRM)
			violation("hostile:hang", d + ": the access to the elements never ends");
		else
			violation(WIFEXITED(s) && WEXITSTATUS(s) == 99 ? "hostile:access-sanitizer" : "hostile:access", d + fmt(": accessing the elements ends with wait status %x", s));
	}

	void one(const Bytes& g, const std::string& d, bool broken)
	{
		note(d);
		std::vector<T> before;
		V v(cv::TAlloc<T>(0));
		if (r.chance(1, 3))
			v.resize(r.below(1000));
		size_t k = 0;
		bool thrown = false;
		bool strict = false; // the outcome has to agree with plain decompression
		std::unique_ptr<uint8_t[]> x(new uint8_t[g.size() ? g.size() : 1]);
		if (g.size())
			memcpy(x.get(), g.data(), g.size());
		if (broken) {
			BrokenBuf b(g, r.chance(1, 2) ? r.below(g.size() + 1) : (size_t)-1, 1 + r.below(64), r.chance(1, 3), !r.chance(1, 4));
			std::istream is(&b);
			bool ex = r.chance(1, 3);
			if (ex)
				is.exceptions(r.chance(1, 2) ? std::ios::badbit : std::ios::badbit | std::ios::failbit | std::ios::eofbit);
			try {
				k = v.deserialize(is);
			}
			catch (const std::exception&) {
				thrown = true;
			}
			count(thrown ? "streams_thrown" : stenos_has_error(k) ? "streams_failed" : "streams_read");
			if (thrown && !ex && !b.throws)
				violation("hostile:exception", d + ": an exception nobody threw");
		}
		else if (r.chance(1, 3)) {
			std::istringstream is(std::string((const char*)g.data(), g.size()));
			k = v.deserialize(is);
			strict = true;
			count("from_stream");
		}
		else {
			k = v.deserialize(x.get(), g.size());
			strict = true;
			count("from_memory");
		}
		bool ok = !thrown && !stenos_has_error(k);
		if (ok && k != v.size())
			violation("hostile:size", d + fmt(": deserialize returned %zu, the vector has %zu elements", k, v.size()));
		if (!thrown && !ok && !documented_error(k))
			violation("hostile:code", d + fmt(": returned %zx", k));
		if (!ok && (v.size() || !v.empty() || v.begin() != v.end()))
			violation("hostile:not-empty", d + fmt(": %zu elements after a failed deserialization", v.size()));
		// against the plain codec
		stenos_info inf;
		size_t h = g.size() ? stenos_get_info(x.get(), sizeof(T), g.size(), &inf) : (size_t)-1;
		std::string sofar = ok ? "accepted" : "refused";
		if (!stenos_has_error(h) && inf.superblock_size == sb && inf.decompressed_size % sizeof(T) == 0 && inf.decompressed_size < 3000000) {
			size_t n = inf.decompressed_size / sizeof(T);
			Bytes o(inf.decompressed_size + 1);
			size_t q = stenos_decompress(x.get(), sizeof(T), g.size(), o.data(), inf.decompressed_size);
			bool plain = q == inf.decompressed_size;
			if (ok && v.size() != n)
				violation("hostile:size", d + fmt(": %zu elements, the frame announces %zu", v.size(), n));
			if (strict && plain && !ok)
				violation("hostile:refused", d + fmt(": a frame that plain decompression accepts is refused (%zd)", (ssize_t)k));
			if (ok && plain) {
				size_t i = 0;
				bool same = true;
				const V& c = v;
				c.for_each(0, v.size(), [&](const T& e) {
					same = same && memcmp(&e, &o[i * sizeof(T)], sizeof(T)) == 0;
					++i;
				});
				if (!same)
					violation("hostile:content", d + ": the elements differ from what plain decompression gives");
				count("both_accept");
			}
			else if (ok)
				count("accepted_not_by_plain");
			sofar += plain ? "P" : "p";
		}
		else if (ok && v.size() && stenos_has_error(h))
			violation("hostile:header", d + ": a frame with an invalid header is accepted");
		if (ok && v.size())
			access(v, d);
		if (!ok || r.chance(1, 4)) { // usable again
			v.clear();
			size_t n = 1 + r.below(700);
			T t;
			memset((void*)&t, 0x42, sizeof t);
			for (size_t i = 0; i < n; ++i)
				v.push_back(t);
			const V& c = v;
			if (v.size() != n || memcmp(&c[n - 1].get(), &t, sizeof t) || memcmp(&c[0].get(), &t, sizeof t))
				violation("hostile:unusable", d + ": the vector is not usable afterwards");
		}
		evaluated(hcomb(hcomb(fnv(g.data(), g.size()), sizeof(T)), fnv(sofar.data(), sofar.size())), g.size() > 8);
	}

	void go()
	{
		Bytes f;
		std::string d = name;
		unsigned what = (unsigned)r.below(10);
		if (what < 3) { // forged with the right block size
			for (int k = 0; k < 20; ++k) {
				size_t size;
				f = mut::forge(r, sizeof(T), size);
				ref::Frame fr;
				ref::parse(f.data(), f.size(), sizeof(T), fr);
				if (fr.superblock == sb)
					break;
			}
			d += " forged";
		}
		else if (what < 9) {
			std::vector<T> m;
			std::string k;
			fill_elems(r, m, r.below(V::block_size * (r.chance(1, 3) ? 6 : 2)), k);
			if (r.chance(1, 2)) {
				V v(m.begin(), m.end(), cv::TAlloc<T>(1));
				f.resize(12 + m.size() * sizeof(T) + 4 * (m.size() / V::block_size + 1));
				f.resize(v.serialize(f.data(), f.size()));
				d += " serialized " + k;
			}
			else {
				Bytes raw((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size() * sizeof(T));
				f = mut::compress(raw, sizeof(T), (int)r.below(4), BS);
				d += " plain " + k;
			}
		}
		else {
			f.resize(r.below(200));
			for (auto& b : f)
				b = r.u8();
			if (f.size() > 12) {
				size_t n = r.below(4 * sb);
				f[0] = 255;
				for (int k = 0; k < 7; ++k)
					f[1 + k] = (uint8_t)((uint64_t)n >> (8 * k));
				for (int k = 0; k < 4; ++k)
					f[8 + k] = (uint8_t)(sb >> (8 * k));
			}
			d += " garbage";
		}
		unsigned rounds = 8;
		for (unsigned k = 0; k < rounds; ++k) {
			Bytes g = f;
			std::string how = " as is";
			unsigned m = (unsigned)r.below(8);
			if (m < 4 && k)
				how = " " + mut::mutate(r, g, sizeof(T));
			else if (m == 4 && !g.empty()) {
				g.resize(r.below(g.size()));
				how = fmt(" cut to %zu", g.size());
			}
			else if (m == 5 && g.size() >= 8) { // announce another number of elements
				uint64_t n = 0;
				memcpy(&n, &g[1], 7);
				switch (r.below(5)) {
					case 0: n += sizeof(T) * (r.below(9)) - 4 * sizeof(T); break;
					case 1: n += 1; break;
					case 2: n = r.u64() >> (8 + r.below(40)); break;
					case 3: n += sb * (1 + r.below(3)); break;
					default: n = n > sb ? n - sb : sb; break;
				}
				memcpy(&g[1], &n, 7);
				how = " size";
			}
			one(g, d + how + fmt(" #%u", k), r.chance(1, 4));
		}
	}
};

template<class T, unsigned BS, int L>
static void go(Rng& r, const char* name)
{
	for (int i = 0; i < 2; ++i)
		cv::arena(i).reset();
	{
		Hostile<T, BS, L> h{ r, name };
		h.go();
	}
	for (int i = 0; i < 2; ++i) {
		if (!cv::arena(i).error.empty())
			violation(cv::arena(i).key, std::string(name) + ": " + cv::arena(i).error);
		else if (cv::arena(i).bytes)
			violation("hostile:leak", std::string(name) + fmt(": %llu bytes are never given back", (unsigned long long)cv::arena(i).bytes));
	}
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		switch (r.below(6)) {
			case 0: go<uint8_t, 0, 1>(r, "cvector<uint8_t,0,1>"); break;
			case 1: go<int32_t, 0, 1>(r, "cvector<int32_t,0,1>"); break;
			case 2: go<P<3>, 1, 2>(r, "cvector<P<3>,1,2>"); break;
			case 3: go<P<12>, 0, 1>(r, "cvector<P<12>,0,1>"); break;
			case 4: go<uint64_t, 0, 3>(r, "cvector<uint64_t,0,3>"); break;
			default: go<P<50>, 1, 1>(r, "cvector<P<50>,1,1>");
		}
		if (i < 4)
			sample(st().status ? st().status : "");
	});
}
