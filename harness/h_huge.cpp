// P01, P12: inputs of more than 4 GB. The input is a short pattern mapped again and again, so that it takes little memory.
#include "gen.hpp"
#include <stenos/stenos.h>
#include <sys/syscall.h>
using namespace vh;

static uint8_t* reserve(size_t n)
{
	void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		_exit(3);
	}
	madvise(p, n, MADV_HUGEPAGE);
	return (uint8_t*)p;
}

int main(int argc, char** argv)
{
	return run(
	  argc,
	  argv,
	  [&](uint64_t i, Rng& r) {
		  static const size_t bp[] = { 8, 1, 4, 12, 300, 3 };
		  size_t bpp = bp[i % 6], per = 8 << 20;
		  int level = i == 0 ? 1 : i % 3 == 2 ? 0 : 1 + (int)r.below(2);
		  int threads = i % 4 == 3 ? 1 : 8;
		  size_t n = (size_t(1) << 32) + r.below(50000000) + (r.chance(1, 2) ? 0 : bpp);
		  if (level == 0)
			  n = (size_t(1) << 32) + r.below(300000);
		  int fd = (int)syscall(SYS_memfd_create, "pattern", 0);
		  if (fd < 0 || ftruncate(fd, (off_t)per))
			  _exit(3);
		  uint8_t* pat = (uint8_t*)mmap(nullptr, per, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		  gen::fill(r, pat, per, bpp, i == 0 ? 15 : i % 2 ? 3 : 5);
		  size_t room = (n + per) / per * per;
		  uint8_t* in = reserve(room);
		  for (size_t o = 0; o < room; o += per)
			  if (mmap(in + o, per, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
				  _exit(3);
		  size_t bound = stenos_bound(n);
		  uint8_t* comp = reserve(bound);
		  std::string what = fmt("bpp=%zu size=%zu level=%d threads=%d", bpp, n, level, threads);
		  note(what + " compression");
		  stenos_context* x = stenos_make_context();
		  stenos_set_level(x, level);
		  stenos_set_threads(x, threads);
		  size_t cs = stenos_compress_generic(x, in, bpp, n, comp, bound);
		  if (stenos_has_error(cs))
			  violation("roundtrip:compress-error", what + fmt(": compress returned %zd", (ssize_t)cs));
		  else {
			  stenos_info inf = { 0, 0 };
			  size_t h = stenos_get_info(comp, bpp, cs < 12 ? cs : 12, &inf);
			  if (stenos_has_error(h) || inf.decompressed_size != n)
				  violation("info:size", what + fmt(": announced size %zu (%zd)", inf.decompressed_size, (ssize_t)h));
			  // only what lies beyond 4 GB has memory of its own; what lies before is one piece of memory again and again
			  uint8_t* out = reserve(room);
			  int fo = (int)syscall(SYS_memfd_create, "out", 0);
			  if (fo < 0 || ftruncate(fo, (off_t)per))
				  _exit(3);
			  size_t own = i < 3 ? (size_t(1) << 32) - per : 0;
			  for (size_t o = 0; o < own; o += per)
				  if (mmap(out + o, per, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fo, 0) == MAP_FAILED)
					  _exit(3);
			  note(what + " decompression");
			  size_t ds = stenos_decompress_generic(x, comp, bpp, cs, out, n);
			  touch();
			  if (ds != n)
				  violation("roundtrip:size", what + fmt(": decompress returned %zd", (ssize_t)ds));
			  else
				  for (size_t o = 0; o < n; o += per) {
					  size_t m = n - o < per ? n - o : per;
					  if (memcmp(out + o, pat, m)) {
						  violation("roundtrip:bytes", what + fmt(": differs after %zu", o));
						  break;
					  }
				  }
			  // a destination that is short by little, and a size that only agrees modulo 2^32
			  size_t e = stenos_decompress_generic(x, comp, bpp, cs, out, n - (size_t(1) << 32));
			  if (!stenos_has_error(e))
				  violation("roundtrip:short-destination", what + fmt(": decompression into %zu bytes returned %zd", n - (size_t(1) << 32), (ssize_t)e));
			  munmap(out, room);
			  close(fo);
			  evaluated(hcomb(hcomb(n, cs), fnv(comp, cs < 4096 ? cs : 4096)));
			  count("huge_inputs");
			  maximum("huge_size", n);
		  }
		  stenos_destroy_context(x);
		  munmap(in, room);
		  munmap(comp, bound);
		  munmap(pat, per);
		  close(fd);
		  sample(what + fmt(" -> %zu bytes", cs));
	  },
	  300);
}
