/* The C interface used from C: every function, from a translation unit compiled as C. */
#include <stenos/stenos.h>
#include <stdlib.h>
#include <string.h>

/* returns 0, or the number of the step that failed */
int life_c(unsigned seed)
{
	const size_t bpp = 1 + seed % 9, n = bpp * (2000 + seed % 50000);
	unsigned char *in = (unsigned char*)malloc(n), *fr = (unsigned char*)malloc(stenos_bound(n)), *out = (unsigned char*)malloc(n);
	size_t i, r, r2;
	stenos_info info;
	stenos_context* ctx;
	stenos_timer* t;
	int step = 0;
	if (!in || !fr || !out)
		return -1;
	for (i = 0; i < n; ++i)
		in[i] = (unsigned char)((i / bpp) * (seed | 1) >> (i % bpp));
	t = stenos_make_timer();
	if (!t)
		return 1;
	stenos_tick(t);
	r = stenos_compress(in, bpp, n, fr, stenos_bound(n), (int)(seed % 10));
	if (stenos_has_error(r))
		step = 2;
	if (!step && (stenos_has_error(stenos_get_info(fr, bpp, r, &info)) || info.decompressed_size != n || !info.superblock_size))
		step = 3;
	if (!step && (stenos_decompress(fr, bpp, r, out, n) != n || memcmp(in, out, n)))
		step = 4;
	ctx = stenos_make_context();
	if (!ctx)
		return 5;
	if (!step && (stenos_has_error(stenos_set_level(ctx, (int)(seed % 10))) || stenos_has_error(stenos_set_threads(ctx, 1 + (int)(seed % 4))) ||
		      stenos_has_error(stenos_set_max_nanoseconds(ctx, 0)) || stenos_has_error(stenos_set_block_size(ctx, STENOS_NO_BLOCK_SHIFT)) || !stenos_memory_footprint(ctx)))
		step = 6;
	memset(fr, 0, r);
	r2 = stenos_compress_generic(ctx, in, bpp, n, fr, stenos_bound(n));
	if (!step && r2 != r)
		step = 7;
	memset(out, 0, n);
	if (!step && (stenos_decompress_generic(ctx, fr, bpp, r2, out, n) != n || memcmp(in, out, n)))
		step = 8;
	if (!step && !stenos_has_error(stenos_compress(in, 0, n, fr, stenos_bound(n), 1)))
		step = 9;
	stenos_reset_context(ctx);
	stenos_destroy_context(ctx);
	if (!step && stenos_tock(t) > 3600ull * 1000000000ull)
		step = 10;
	stenos_destroy_timer(t);
	free(in);
	free(fr);
	free(out);
	return step;
}
