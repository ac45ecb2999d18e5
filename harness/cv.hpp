// Element types, allocator and ledgers of the compressed vector monitors.
#pragma once
#include "vh.hpp"
#include <iostream>
#include <sstream>
#include <stenos/cvector.hpp>
#include <unordered_map>

namespace cv {
using vh::fmt;
using vh::Rng;

// ---------------------------------------------------------------- faults thrown by elements, functors or the allocator
struct Boom {};
struct Fault {
	long countdown = -1; // < 0: disarmed
	uint64_t thrown = 0;
	bool tick()
	{
		if (countdown > 0 && --countdown == 0) {
			countdown = -1;
			++thrown;
			return true;
		}
		return false;
	}
};
inline Fault& elem_fault()
{
	static Fault f;
	return f;
}
inline Fault& alloc_fault()
{
	static Fault f;
	return f;
}

// ---------------------------------------------------------------- ledger of the elements: one token per living object
struct Ledger {
	std::vector<uint8_t> state; // 0: never, 1: alive, 2: dead
	uint32_t next = 1;
	uint64_t live = 0, constructed = 0, destroyed = 0;
	std::string error; // first one
	std::string key;
	bool on = true;
	void reset()
	{
		if (state.size() < 1 << 20)
			state.resize(1 << 20);
		memset(state.data(), 0, next < state.size() ? next : state.size());
		next = 1;
		live = constructed = destroyed = 0;
		error.clear();
		key.clear();
	}
	void bad(const char* k, const std::string& e)
	{
		if (error.empty()) {
			key = k;
			error = e;
		}
	}
	uint32_t born()
	{
		if (next >= state.size())
			state.resize(state.size() * 2);
		state[next] = 1;
		++live;
		++constructed;
		return next++;
	}
	bool alive(uint32_t t, const char* what)
	{
		if (t == 0 || t >= next) {
			bad("life:garbage", fmt("%s of an object that was never constructed (token %u)", what, t));
			return false;
		}
		if (state[t] != 1) {
			bad(*what == 'd' ? "life:double-destroy" : "life:use-after-destroy", fmt("%s of the destroyed object %u", what, t));
			return false;
		}
		return true;
	}
	void dead(uint32_t t)
	{
		if (!alive(t, "destruction"))
			return;
		state[t] = 2;
		--live;
		++destroyed;
	}
};
inline Ledger& ledger()
{
	static Ledger* l = new Ledger;
	return *l;
}

// Tracked element: relocatable, may throw from its constructors and copy assignment.
template<size_t PAD, bool COPY>
struct Tr {
	uint32_t token;
	int32_t v;
	uint8_t pad[PAD ? PAD : 4];
	static constexpr int32_t MOVED = -123456789;
	void fill()
	{
		for (size_t i = 0; i < sizeof pad; ++i)
			pad[i] = (uint8_t)((uint32_t)v * 31u + i);
	}
	bool intact() const
	{
		for (size_t i = 0; i < sizeof pad; ++i)
			if (pad[i] != (uint8_t)((uint32_t)v * 31u + i))
				return false;
		return true;
	}
	Tr()
	  : token(0)
	  , v(0)
	{
		if (elem_fault().tick())
			throw Boom();
		token = ledger().born();
		fill();
	}
	Tr(int x)
	  : token(0)
	  , v(x)
	{
		if (elem_fault().tick())
			throw Boom();
		token = ledger().born();
		fill();
	}
	template<bool C = COPY, class = typename std::enable_if<C>::type>
	void copy_from(const Tr& o)
	{
	}
	Tr(const Tr& o)
	  : token(0)
	  , v(o.v)
	{
		if (elem_fault().tick())
			throw Boom();
		ledger().alive(o.token, "copy");
		if (!o.intact())
			ledger().bad("life:torn", fmt("copy of a damaged element (value %d)", o.v));
		token = ledger().born();
		memcpy(pad, o.pad, sizeof pad);
	}
	Tr(Tr&& o) noexcept
	  : token(0)
	  , v(o.v)
	{
		ledger().alive(o.token, "move");
		if (!o.intact())
			ledger().bad("life:torn", fmt("move of a damaged element (value %d)", o.v));
		token = ledger().born();
		memcpy(pad, o.pad, sizeof pad);
		o.v = MOVED;
		o.fill();
	}
	Tr& operator=(const Tr& o)
	{
		ledger().alive(token, "assignment");
		if (elem_fault().tick())
			throw Boom();
		ledger().alive(o.token, "copy");
		v = o.v;
		memmove(pad, o.pad, sizeof pad);
		return *this;
	}
	Tr& operator=(Tr&& o) noexcept
	{
		ledger().alive(token, "assignment");
		ledger().alive(o.token, "move");
		if (this != &o) {
			v = o.v;
			memcpy(pad, o.pad, sizeof pad);
			o.v = MOVED;
			o.fill();
		}
		return *this;
	}
	~Tr() { ledger().dead(token); }
	int get() const
	{
		ledger().alive(token, "read");
		if (!intact())
			ledger().bad("life:torn", fmt("read of a damaged element (value %d)", v));
		return v;
	}
	friend bool operator==(const Tr& a, const Tr& b) { return a.get() == b.get(); }
	friend bool operator!=(const Tr& a, const Tr& b) { return a.get() != b.get(); }
	friend bool operator<(const Tr& a, const Tr& b) { return a.get() < b.get(); }
	friend bool operator<=(const Tr& a, const Tr& b) { return a.get() <= b.get(); }
	friend bool operator>(const Tr& a, const Tr& b) { return a.get() > b.get(); }
	friend bool operator>=(const Tr& a, const Tr& b) { return a.get() >= b.get(); }
};
// Move-only flavour.
template<size_t PAD>
struct Tr<PAD, false> : Tr<PAD, true> {
	using B = Tr<PAD, true>;
	Tr() {}
	Tr(int x)
	  : B(x)
	{
	}
	Tr(const Tr&) = delete;
	Tr(Tr&& o) noexcept = default;
	Tr& operator=(const Tr&) = delete;
	Tr& operator=(Tr&& o) noexcept = default;
};
using T12 = Tr<4, true>;
using T24 = Tr<16, true>;
using M12 = Tr<4, false>;

// ---------------------------------------------------------------- plain element types
template<size_t N>
struct P {
	uint8_t b[N];
	P() { memset(b, 0, N); }
	explicit P(uint64_t x)
	{
		for (size_t i = 0; i < N; ++i)
			b[i] = (uint8_t)(i < 8 ? x >> (8 * i) : x * (i + 1));
	}
	uint64_t key() const
	{
		uint64_t x = 0;
		memcpy(&x, b, N < 8 ? N : 8);
		return x;
	}
	friend bool operator==(const P& a, const P& b) { return memcmp(a.b, b.b, N) == 0; }
	friend bool operator!=(const P& a, const P& b) { return memcmp(a.b, b.b, N) != 0; }
	friend bool operator<(const P& a, const P& b) { return memcmp(a.b, b.b, N) < 0; }
	friend bool operator<=(const P& a, const P& b) { return memcmp(a.b, b.b, N) <= 0; }
	friend bool operator>(const P& a, const P& b) { return memcmp(a.b, b.b, N) > 0; }
	friend bool operator>=(const P& a, const P& b) { return memcmp(a.b, b.b, N) >= 0; }
};

template<class T>
struct Make {
	static T make(uint64_t x) { return (T)x; }
	static uint64_t code(const T& t)
	{
		uint64_t x = 0;
		memcpy(&x, &t, sizeof t < 8 ? sizeof t : 8);
		return x;
	}
	static const bool tracked = false;
};
template<size_t N>
struct Make<P<N>> {
	static P<N> make(uint64_t x) { return P<N>(x); }
	static uint64_t code(const P<N>& t) { return vh::fnv(t.b, N); }
	static const bool tracked = false;
};
template<size_t N, bool C>
struct Make<Tr<N, C>> {
	static Tr<N, C> make(uint64_t x) { return Tr<N, C>((int)(x & 0x3fffffff)); }
	static uint64_t code(const Tr<N, C>& t) { return (uint64_t)(int64_t)t.get(); }
	static const bool tracked = true;
};
template<>
struct Make<std::unique_ptr<int>> {
	static std::unique_ptr<int> make(uint64_t x) { return std::unique_ptr<int>(new int((int)(x & 0x3fffffff))); }
	static uint64_t code(const std::unique_ptr<int>& t) { return t ? (uint64_t)*t : ~0ull; }
	static const bool tracked = false;
};
// A copy, also of the move-only types.
template<class T>
inline T dup(const T& a)
{
	return a;
}
template<size_t N>
inline Tr<N, false> dup(const Tr<N, false>& a)
{
	return Tr<N, false>(a.get());
}
inline std::unique_ptr<int> dup(const std::unique_ptr<int>& a)
{
	return a ? std::unique_ptr<int>(new int(*a)) : std::unique_ptr<int>();
}
template<class T>
inline bool same(const T& a, const T& b)
{
	return Make<T>::code(a) == Make<T>::code(b);
}
template<size_t N>
inline bool same(const P<N>& a, const P<N>& b)
{
	return a == b;
}

// ---------------------------------------------------------------- allocator with a ledger of its blocks
struct Arena {
	std::mutex m;
	std::unordered_map<void*, size_t> blocks;
	uint64_t bytes = 0, peak = 0, allocs = 0, chunk_size = 0, chunks = 0, peak_chunks = 0;
	std::string error, key;
	void* alloc(size_t n)
	{
		if (alloc_fault().countdown > 0) {
			if (alloc_fault().tick())
				throw std::bad_alloc();
		}
		void* p = malloc(n ? n : 1);
		if (!p)
			throw std::bad_alloc();
		memset(p, 0xE7, n < 4096 ? n : 4096);
		std::lock_guard<std::mutex> l(m);
		blocks[p] = n;
		bytes += n;
		++allocs;
		if (bytes > peak)
			peak = bytes;
		if (n == chunk_size && ++chunks > peak_chunks)
			peak_chunks = chunks;
		return p;
	}
	void dealloc(void* p, size_t n) noexcept
	{
		if (!p)
			return; // every container of the library frees null pointers of size 0
		std::lock_guard<std::mutex> l(m);
		auto it = blocks.find(p);
		if (it == blocks.end()) {
			if (error.empty()) {
				key = "life:free-unknown";
				error = fmt("deallocation of a block of %zu bytes that is not allocated from this allocator (freed twice?)", n);
			}
			return;
		}
		if (it->second != n && error.empty()) {
			key = "life:free-size";
			error = fmt("block of %zu bytes deallocated with size %zu", it->second, n);
		}
		bytes -= it->second;
		if (it->second == chunk_size)
			--chunks;
		blocks.erase(it);
		free(p);
	}
	void reset()
	{
		for (auto& b : blocks)
			free(b.first);
		blocks.clear();
		bytes = peak = allocs = chunks = peak_chunks = 0;
		error.clear();
	}
};
inline Arena& arena(int i)
{
	static Arena* a = new Arena[3];
	return a[i];
}
template<class T>
struct TAlloc {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::true_type;
	using propagate_on_container_move_assignment = std::true_type;
	using propagate_on_container_swap = std::true_type;
	using is_always_equal = std::false_type;
	Arena* a;
	TAlloc() noexcept
	  : a(&arena(0))
	{
	}
	explicit TAlloc(int i) noexcept
	  : a(&arena(i))
	{
	}
	template<class U>
	TAlloc(const TAlloc<U>& o) noexcept
	  : a(o.a)
	{
	}
	T* allocate(size_t n) { return (T*)a->alloc(n * sizeof(T)); }
	void deallocate(T* p, size_t n) noexcept { a->dealloc(p, n * sizeof(T)); }
	friend bool operator==(const TAlloc& x, const TAlloc& y) noexcept { return x.a == y.a; }
	friend bool operator!=(const TAlloc& x, const TAlloc& y) noexcept { return x.a != y.a; }
};
} // namespace cv

namespace stenos {
template<size_t N, bool C>
struct is_relocatable<cv::Tr<N, C>> : std::true_type {};
template<size_t N>
struct is_relocatable<cv::P<N>> : std::true_type {};
}
