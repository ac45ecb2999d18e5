// P27: bytes obtained from the allocator during calls, kept between them and given back, against bounds and stenos_memory_footprint().
// The allocation functions of the process are replaced; blocks requested by libzstd (its contexts) are accounted for apart.
#include "gen.hpp"
#include <link.h>
#include <malloc.h>
#include <sched.h>
#include <stenos/stenos.h>
using namespace vh;

namespace led {
// Open-addressing table of the blocks allocated while the ledger is on.
enum { CAP = 1 << 18 };
struct Ent {
	void* p;
	uint32_t n, kind;
};
static Ent* tab;
static std::atomic_flag lock = ATOMIC_FLAG_INIT;
static std::atomic<int> on{ 0 };
static size_t live[2], peak[2], blocks;
static uintptr_t za, zb, la, lb; // code of libzstd and of the C library
struct L {
	L()
	{
		while (lock.test_and_set(std::memory_order_acquire))
			sched_yield();
	}
	~L() { lock.clear(std::memory_order_release); }
};
static int find_code(struct dl_phdr_info* i, size_t, void*)
{
	for (int k = 0; i->dlpi_name && k < i->dlpi_phnum; ++k)
		if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
			uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
			if (strstr(i->dlpi_name, "libzstd"))
				za = a, zb = b;
			else if (strstr(i->dlpi_name, "libc.so"))
				la = a, lb = b;
		}
	return 0;
}
static void init()
{
	tab = (Ent*)mmap(nullptr, CAP * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	dl_iterate_phdr(&find_code, nullptr);
}
static size_t slot(void* p) { return (size_t)(mix((uint64_t)(uintptr_t)p) & (CAP - 1)); }
static void add(void* p, void* caller)
{
	uintptr_t c = (uintptr_t)caller;
	if (!p || !on.load(std::memory_order_relaxed) || exempt() || (c >= la && c < lb))
		return;
	L l;
	uint32_t k = c >= za && c < zb;
	size_t n = malloc_usable_size(p), s = slot(p);
	while (tab[s].p)
		s = (s + 1) & (CAP - 1);
	tab[s] = Ent{ p, (uint32_t)n, k };
	live[k] += n;
	++blocks;
	if (live[k] > peak[k])
		peak[k] = live[k];
}
static void del(void* p)
{
	if (!p || !tab)
		return;
	L l;
	size_t s = slot(p);
	while (tab[s].p != p) {
		if (!tab[s].p)
			return;
		s = (s + 1) & (CAP - 1);
	}
	live[tab[s].kind] -= tab[s].n;
	--blocks;
	// backward-shift deletion
	size_t j = s;
	while (true) {
		tab[s].p = nullptr;
		size_t k;
		do {
			j = (j + 1) & (CAP - 1);
			if (!tab[j].p)
				return;
			k = slot(tab[j].p);
		} while (s <= j ? (s < k && k <= j) : (s < k || k <= j));
		tab[s] = tab[j];
		s = j;
	}
}
static size_t ours() { L l; return live[0]; }
static size_t zstd() { L l; return live[1]; }
static void restart()
{
	L l;
	peak[0] = live[0];
	peak[1] = live[1];
}
static size_t top() { L l; return peak[0]; }
} // namespace led

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n)
{
	void* p = __libc_malloc(n);
	led::add(p, __builtin_return_address(0));
	return p;
}
void* calloc(size_t a, size_t b)
{
	void* p = __libc_calloc(a, b);
	led::add(p, __builtin_return_address(0));
	return p;
}
void* realloc(void* q, size_t n)
{
	led::del(q);
	void* p = __libc_realloc(q, n);
	led::add(p, __builtin_return_address(0));
	return p;
}
void* memalign(size_t a, size_t n)
{
	void* p = __libc_memalign(a, n);
	led::add(p, __builtin_return_address(0));
	return p;
}
void* aligned_alloc(size_t a, size_t n)
{
	void* p = __libc_memalign(a, n);
	led::add(p, __builtin_return_address(0));
	return p;
}
int posix_memalign(void** o, size_t a, size_t n)
{
	void* p = __libc_memalign(a, n);
	led::add(p, __builtin_return_address(0));
	if (!p)
		return ENOMEM;
	*o = p;
	return 0;
}
void free(void* p)
{
	led::del(p);
	__libc_free(p);
}
}

namespace {
struct On {
	On() { led::on = 1; }
	~On() { led::on = 0; }
};
size_t superblock_of(const gen::Bytes& f, size_t n, size_t bpp)
{
	stenos_info in;
	memset(&in, 0, sizeof in);
	if (stenos_has_error(stenos_get_info(f.data(), bpp, n, &in)))
		return 0;
	return in.superblock_size < STENOS_MAX_BLOCK_BYTES ? in.superblock_size : 0;
}
} // namespace

int main(int argc, char** argv)
{
	led::init();
	size_t max_bpp = 1;
	size_t base0 = led::ours();
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		// the thread-level buffers grow with the element size: half of the processes only see small ones
		size_t bpp = st().shard & 1 ? (r.chance(1, 4) ? 1 : r.range(1, 12)) : r.chance(1, 10) ? r.range(65, 1000) : r.range(1, 64);
		if (bpp > max_bpp)
			max_bpp = bpp;
		std::string d = fmt("case %llu bpp=%zu", (unsigned long long)i, bpp);
		const size_t before = led::ours(), pool = 2 * std::thread::hardware_concurrency() + 1;
		stenos_context* x;
		{
			On o;
			x = stenos_make_context();
		}
		uint64_t sig = 0;
		size_t ops = r.range(0, 6);
		int threads = 1;
		gen::Bytes data, frame;
		size_t fb = 0;
		for (size_t k = 0; k < ops; ++k) {
			if (k == 0 || r.chance(1, 2)) {
				threads = r.chance(1, 3) ? 1 : r.chance(1, 12) ? 5000 : (int)r.range(2, 12);
				stenos_set_threads(x, threads);
				stenos_set_level(x, r.chance(1, 12) ? 9 : (int)r.below(8));
				stenos_set_max_nanoseconds(x, r.chance(1, 6) ? (r.chance(1, 2) ? 1 : 3600 * 1000000000ull) : 0);
				size_t sh = r.chance(1, 3) ? r.below(12) : STENOS_NO_BLOCK_SHIFT;
				if (sh != STENOS_NO_BLOCK_SHIFT && ((bpp * 256) << sh) >= STENOS_MAX_BLOCK_BYTES)
					sh = STENOS_NO_BLOCK_SHIFT;
				if (sh != STENOS_NO_BLOCK_SHIFT && ((bpp * 256) << sh) < 8192)
					sh = 5;
				stenos_set_block_size(x, sh);
				if (r.chance(1, 8)) {
					stenos_reset_context(x);
					threads = 1;
				}
			}
			size_t n = r.chance(1, 8) ? r.below(2000) : r.chance(1, 2) ? r.range(100000, 600000) : r.range(600000, 3500000);
			data.resize(n);
			gen::fill(r, data.data(), n, bpp, (int)r.below(gen::KINDS));
			size_t bound = 12 + n + 4 * (n / 256 + 2);
			frame.resize(bound);
			std::string w = d + fmt(" op %zu: n=%zu threads=%d", k, n, threads);
			note(w);
			auto bounded = [&](const char* what, size_t S, size_t live0) {
				size_t count_sb = S ? n / S + 1 : 1;
				size_t t = (size_t)threads < count_sb ? (size_t)threads : count_sb;
				// (any thread of the pool may take its thread-level buffers during the call, whatever the number of tasks at a time)
				size_t allowed = 4 * t * (S + 512) + (t == 1 ? 1 : pool) * (1300 * bpp + 8192) + count_sb * 8 + 65536;
				size_t used = led::top() - live0;
				count("peaks_checked");
				maximum("permille_of_the_allowed_working_memory", used * 1000 / allowed);
				if (n > 4 * allowed)
					count("inputs_larger_than_4_times_the_bound");
				if (used > allowed)
					violation("mem:working", w + fmt(": %s of superblocks of %zu bytes took %zu bytes of working memory, more than %zu", what, S, used, allowed));
			};
			size_t res = 0;
			for (int rep = 0; rep < (r.chance(1, 4) ? 3 : 1); ++rep) {
				size_t l0 = led::ours();
				led::restart();
				{
					On o;
					res = stenos_compress_generic(x, data.data(), bpp, n, frame.data(), r.chance(1, 15) ? bound / 9 : bound);
				}
				if (stenos_has_error(res))
					bounded("a refused compression", STENOS_MAX_BLOCK_BYTES / 4, l0);
				else
					bounded("a compression", superblock_of(frame, res, bpp), l0);
				if (rep) {
					count("repetitions");
					// the same call again: nothing more is kept (task objects and thread-level buffers of other pool threads excepted)
					size_t l1 = led::ours();
					if (l1 > l0 + pool * (1300 * bpp + 8192) + 65536)
						violation("mem:grows", w + fmt(": repeating a call takes %zu bytes more", l1 - l0));
				}
			}
			sig = hcomb(sig, res);
			if (stenos_has_error(res))
				continue;
			fb = res;
			if (r.chance(1, 2)) {
				gen::Bytes f(frame.data(), frame.data() + fb);
				bool altered = r.chance(1, 2) && fb > 0;
				if (altered) {
					size_t m = r.range(1, 4);
					for (size_t q = 0; q < m; ++q)
						f[r.chance(1, 2) ? r.below(std::min<size_t>(fb, 20)) : r.below(fb)] = r.u8();
					if (r.chance(1, 3) && f.size() >= 12) {
						f[0] = 255;
						f[8] = r.u8();
						f[9] = r.u8();
						f[10] = r.u8();
						f[11] = 0;
					}
					count("altered_frames");
				}
				gen::Bytes out(n ? n : 1);
				size_t l0 = led::ours(), S = superblock_of(f, f.size(), bpp), e;
				led::restart();
				{
					On o;
					e = stenos_decompress_generic(x, f.data(), bpp, f.size(), out.data(), n);
				}
				bounded("a decompression", S, l0);
				count(stenos_has_error(e) ? "decompressions_refused" : "decompressions");
				sig = hcomb(sig, e);
			}
		}
		// what the context holds is what it reports
		size_t reported = stenos_memory_footprint(x), l1 = led::ours();
		{
			On o;
			stenos_destroy_context(x);
		}
		size_t l2 = led::ours(), held = l1 - l2;
		if (l2 > l1)
			held = 0;
		count("footprints_checked");
		if (reported > 100000)
			count("large_footprints");
		maximum("footprint", reported);
		size_t tol = 4096 + held / 50 + 64 * 3 * (size_t)std::min(threads, 64);
		if (reported > held + tol || held > reported + tol)
			violation("mem:footprint", d + fmt(" after %zu operations: %zu bytes reported, %zu given back by the destruction", ops, reported, held));
		// and nothing but thread-level buffers remains
		size_t allowed = pool * (1300 * max_bpp + 16384) + 524288;
		if (l2 - base0 > allowed)
			violation("mem:kept", d + fmt(": %zu bytes are still held after all contexts are destroyed, %zu after the previous history", l2 - base0, before - base0));
		maximum("thread_level_bytes", l2 - base0);
		// threads that end give back their compression contexts; the same thread uses one
		if (r.chance(1, 6) && fb) {
			size_t z0 = led::zstd(), zmid = 0, zend = 0;
			size_t o0 = led::ours();
			int lv = 1 + (int)r.below(7);
			size_t m = std::min<size_t>(data.size(), 300000);
			bool dead = false;
			std::thread([&] {
				On o;
				for (int q = 0; q < 4; ++q) {
					gen::Bytes* buf;
					{
						led::on = 0;
						buf = new gen::Bytes(stenos_bound(m));
						led::on = 1;
					}
					size_t e = stenos_compress(data.data(), bpp, m, buf->data(), buf->size(), lv);
					dead |= stenos_has_error(e);
					led::on = 0;
					delete buf;
					led::on = 1;
					(q == 0 ? zmid : zend) = led::zstd();
				}
			}).join();
			count("ended_threads");
			if (dead)
				violation("mem:failed", d + ": compression in a thread failed");
			if (zend > zmid + 65536 && zend > zmid * 2)
				violation("mem:zstd-grows", d + fmt(": compression contexts of a thread grew from %zu to %zu bytes", zmid, zend));
			if (led::zstd() > z0)
				violation("mem:zstd-kept", d + fmt(": %zu bytes of compression contexts remain after the thread ended", led::zstd() - z0));
			if (led::ours() > o0 + 65536)
				violation("mem:thread-kept", d + fmt(": %zu bytes remain after the thread ended", led::ours() - o0));
		}
		evaluated(hcomb(sig, hcomb(bpp, reported)));
		if (i < 3)
			sample(d + fmt(": %zu operations, footprint %zu, held %zu", ops, reported, held));
	});
}
