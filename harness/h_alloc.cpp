// P13: every allocation ordinal of compressions and decompressions is made to fail.
#include "allocfail.hpp"
#include "gen.hpp"
#include "guard.hpp"
#include <stenos/stenos.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif
using namespace vh;

namespace {
struct Op {
	const gen::Case* c;
	int threads;
	size_t shift;
	uint64_t ns;
};
void configure(stenos_context* x, const Op& o)
{
	stenos_set_level(x, o.c->level);
	stenos_set_threads(x, o.threads);
	stenos_set_block_size(x, o.shift);
	stenos_set_max_nanoseconds(x, o.ns);
}
template<class F>
void in_thread(bool fresh, F f)
{
	if (!fresh) {
		f();
		return;
	}
	std::thread(f).join();
}
} // namespace

int main(int argc, char** argv)
{
	return run(argc, argv, [&](uint64_t i, Rng& r) {
		gen::Case c = gen::make(r, 100000);
		if (i < 24) { // first uses in the process: the pool threads have no zstd context yet
			c.bpp = 1 + r.below(8);
			c.size = 131072 * 4;
			c.level = (int)r.range(1, 3);
			c.kind = (int)r.below(gen::KINDS);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
		}
		else if (r.chance(1, 3)) {
			if (c.bpp > 100)
				c.bpp = 1 + r.below(64);
			c.size = 131072 * r.range(2, 5) + r.below(1000);
			c.level = (int)r.below(5);
			c.data.resize(c.size);
			gen::fill(r, c.data.data(), c.size, c.bpp, c.kind);
		}
		Op op{ &c, r.chance(1, 3) || i < 24 ? (int)r.range(2, 6) : 1, STENOS_NO_BLOCK_SHIFT, 0 };
		if (r.chance(1, 6)) {
			op.shift = r.below(3);
			if (((c.bpp * 256) << op.shift) >= STENOS_MAX_BLOCK_BYTES)
				op.shift = STENOS_NO_BLOCK_SHIFT;
		}
		else if (r.chance(1, 10))
			op.ns = 3600 * 1000000000ull;
		size_t bound = 12 + c.size + 4 * (c.size / (op.shift == STENOS_NO_BLOCK_SHIFT ? 65792 : ((c.bpp * 256) << op.shift)) + 2);
		std::string d = c.str() + fmt(" threads=%d shift=%zd ns=%d", op.threads, (ssize_t)op.shift, op.ns != 0);
		bool fresh_thread = r.chance(1, 2);
		gen::Bytes ref(bound), o(bound), out(c.size + 1);
		size_t rr = 0;
		uint64_t n_compress = 0, n_decompress = 0;
		bool first = i < st().nshards; // no unarmed run before in this process
		uint64_t first_at = 0;
		// the reference, counting the allocations (with a failure in the very first runs)
		auto base = [&] {
			stenos_context* x = stenos_make_context();
			configure(x, op);
			if (first) {
				first_at = 1 + r.below(24);
				note(d + fmt(" first use in the process, failing allocation %llu", (unsigned long long)first_at));
				af::arm(first_at, r.chance(1, 2) ? ~0ull : first_at);
				size_t e = stenos_compress_generic(x, c.data.data(), c.bpp, c.size, o.data(), bound);
				af::disarm();
				if (stenos_has_error(e) && !documented_error(e))
					violation("alloc:error-code", d + fmt(": %zd", (ssize_t)e));
				if (!stenos_has_error(e)) {
					size_t ds = stenos_decompress(o.data(), c.bpp, e, out.data(), c.size);
					if (ds != c.size || (c.size && memcmp(out.data(), c.data.data(), c.size)))
						violation("alloc:wrong-frame", d + " (first use)");
				}
				count("first_use_failures");
			}
			af::arm(~0ull, 0);
			rr = stenos_compress_generic(x, c.data.data(), c.bpp, c.size, ref.data(), bound);
			n_compress = af::disarm();
			stenos_destroy_context(x);
		};
		note(d + " reference");
		in_thread(fresh_thread, base);
		if (stenos_has_error(rr)) {
			violation(first ? "alloc:not-recovered" : "alloc:compress", d + fmt(": %zd without any failing allocation", (ssize_t)rr));
			return;
		}
		if (first && !op.ns) {
			// the same compression by a thread that saw no failure
			size_t r2 = 0;
			in_thread(true, [&] {
				stenos_context* x = stenos_make_context();
				configure(x, op);
				stenos_set_threads(x, 1);
				r2 = stenos_compress_generic(x, c.data.data(), c.bpp, c.size, o.data(), bound);
				stenos_destroy_context(x);
			});
			if (r2 != rr || memcmp(o.data(), ref.data(), rr))
				violation("alloc:not-recovered", d + fmt(": after a failure at the first use, %zu bytes instead of %zu", rr, r2));
		}
		{
			stenos_context* x = stenos_make_context();
			stenos_set_threads(x, op.threads);
			af::arm(~0ull, 0);
			size_t ds = stenos_decompress_generic(x, ref.data(), c.bpp, rr, out.data(), c.size);
			n_decompress = af::disarm();
			stenos_destroy_context(x);
			if (ds != c.size)
				violation("alloc:decompress", d + fmt(": %zd without any failing allocation", (ssize_t)ds));
		}
		maximum("allocations_in_a_compression", n_compress);
		maximum("allocations_in_a_decompression", n_decompress);

		std::vector<uint64_t> ords;
		uint64_t n = n_compress + 2;
		if (n <= 16 || st().thorough)
			for (uint64_t k = 1; k <= n; ++k)
				ords.push_back(k);
		else
			for (int k = 0; k < 12; ++k)
				ords.push_back(1 + r.below(n));
		stenos_context* warm = stenos_make_context();
		for (uint64_t at : ords) {
			bool tail = r.chance(1, 3), use_warm = r.chance(1, 2), fresh = r.chance(1, 2);
			uint64_t rnd = r.u64();
			auto body = [&] {
				Rng q(rnd);
				uint64_t until = tail ? ~0ull : at + (q.chance(1, 4) ? q.below(4) : 0);
				std::string dd = d + fmt(" failing allocations %llu..%s warm=%d fresh_thread=%d", (unsigned long long)at, tail ? "end" : fmt("%llu", (unsigned long long)until).c_str(), (int)use_warm, (int)fresh);
				note(dd);
				stenos_context* x = use_warm ? warm : nullptr;
				bool make_armed = !use_warm && q.chance(1, 3);
				if (!use_warm && !make_armed)
					x = stenos_make_context();
				size_t e = 0;
				if (make_armed) {
					af::arm(at, until);
					x = stenos_make_context();
					if (!x) {
						af::disarm();
						count("contexts_refused");
						x = stenos_make_context();
						configure(x, op);
						af::arm(at, until);
					}
					else
						configure(x, op);
				}
				else {
					configure(x, op);
					af::arm(at, until);
				}
				bool simple = !use_warm && op.threads == 1 && !op.ns && op.shift == STENOS_NO_BLOCK_SHIFT && q.chance(1, 3);
				e = simple ? stenos_compress(c.data.data(), c.bpp, c.size, o.data(), bound, c.level) : stenos_compress_generic(x, c.data.data(), c.bpp, c.size, o.data(), bound);
				af::disarm();
				uint64_t failed = af::s().failed.load();
				count("injected_failures", failed);
				if (stenos_has_error(e)) {
					count("compressions_refused");
					if (!documented_error(e))
						violation("alloc:error-code", dd + fmt(": %zd", (ssize_t)e));
					if (!failed)
						violation("alloc:spurious", dd + fmt(": %zd although no allocation failed", (ssize_t)e));
				}
				else {
					std::fill(out.begin(), out.end(), 0x77);
					size_t ds = e > bound ? 0 : stenos_decompress(o.data(), c.bpp, e, out.data(), c.size);
					if (e > bound || ds != c.size || (c.size && memcmp(out.data(), c.data.data(), c.size)))
						violation("alloc:wrong-frame", dd + fmt(": %zu bytes that decompress to %zd", e, (ssize_t)ds));
					if (failed)
						count("compressions_that_survived");
				}
				// the context works again
				configure(x, op);
				size_t again = stenos_compress_generic(x, c.data.data(), c.bpp, c.size, o.data(), bound);
				bool same = op.ns ? !stenos_has_error(again) : again == rr && !memcmp(o.data(), ref.data(), rr);
				if (!same)
					violation("alloc:not-recovered", dd + fmt(": the context then produces %zd instead of %zu bytes", (ssize_t)again, rr));
				// decompression
				uint64_t dat = 1 + q.below(n_decompress + 2);
				if (q.chance(1, 2)) {
					std::fill(out.begin(), out.end(), 0x77);
					note(dd + fmt(" decompression failing %llu", (unsigned long long)dat));
					stenos_context* y = q.chance(1, 2) ? x : stenos_make_context();
					stenos_set_threads(y, op.threads);
					bool sd = q.chance(1, 4);
					af::arm(dat, tail ? ~0ull : dat);
					size_t ds = sd ? stenos_decompress(ref.data(), c.bpp, rr, out.data(), c.size) : stenos_decompress_generic(y, ref.data(), c.bpp, rr, out.data(), c.size);
					af::disarm();
					uint64_t f2 = af::s().failed.load();
					count("injected_failures", f2);
					if (stenos_has_error(ds)) {
						count("decompressions_refused");
						if (!documented_error(ds))
							violation("alloc:error-code", dd + fmt(": decompress %zd", (ssize_t)ds));
						if (!f2)
							violation("alloc:spurious", dd + fmt(": decompress %zd although no allocation failed", (ssize_t)ds));
					}
					else if (ds != c.size || (c.size && memcmp(out.data(), c.data.data(), c.size)))
						violation("alloc:wrong-output", dd + fmt(": decompress %zd", (ssize_t)ds));
					else if (f2)
						count("decompressions_that_survived");
					if (out[c.size] != 0x77)
						violation("alloc:overrun", dd);
					ds = stenos_decompress_generic(y, ref.data(), c.bpp, rr, out.data(), c.size);
					if (ds != c.size || (c.size && memcmp(out.data(), c.data.data(), c.size)))
						violation("alloc:not-recovered", dd + fmt(": decompression by the context then gives %zd", (ssize_t)ds));
					if (y != x)
						stenos_destroy_context(y);
				}
				evaluated(hcomb(hcomb(fnv(ref.data(), rr), at), hcomb(tail * 8 + use_warm * 4 + fresh * 2 + make_armed, e)), failed != 0);
				if (i < 3)
					sample(dd + fmt(" -> %zd, %llu of %llu allocations refused", (ssize_t)e, (unsigned long long)failed, (unsigned long long)n_compress));
				if (!use_warm)
					stenos_destroy_context(x);
			};
			in_thread(fresh, body);
		}
		stenos_destroy_context(warm);
#if defined(__SANITIZE_ADDRESS__)
		if (i / st().nshards % 8 == 7 && __lsan_do_recoverable_leak_check()) {
			violation("alloc:leak", d);
			_exit(99);
		}
#endif
		// timers
		af::arm(1, 1);
		stenos_timer* t = stenos_make_timer();
		af::disarm();
		if (t)
			stenos_destroy_timer(t);
		else
			count("timers_refused");
	});
}
