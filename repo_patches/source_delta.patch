From ca5b9a2d7ac59d0df2695a0616ebb63cc8fbb405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 01/53] fix: decompress frames whose size is an exact multiple
 of the superblock size

---
 stenos/internal/stenos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 524d348..6b096f0 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1114,6 +1114,9 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Compute superblock count
 	size_t super_block_remaining = decompressed % opts->superblock_size;
 	size_t super_block_count = decompressed / opts->superblock_size + (super_block_remaining ? 1 : 0);
+	if (super_block_remaining == 0)
+		// The last superblock is a full one
+		super_block_remaining = opts->superblock_size;
 
 	if (opts->threads <= 1 || super_block_count == 1) {
 		// Mono thread decompression
-- 
2.43.0


From 936d46663ac42f62250f305abd2b86c20b0fa24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 02/53] fix: write the superblock size in the frame header
 whenever the decoder expects it

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 6b096f0..63af7db 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -865,7 +865,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 	stenos::write_uint64_7(dst, bytes);
 	dst += 7;
 
-	if (opts->custom_blocksize_shift != STENOS_NO_BLOCK_SHIFT) {
+	if (opts->shift == 255) {
 		// Write custom superblock size
 		if STENOS_UNLIKELY (dst + 4 > dst_end)
 			return STENOS_ERROR_DST_OVERFLOW;
-- 
2.43.0


From 94adc18fb1123d22efa3edda163e460a300b858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 03/53] fix: stenos_reset_context() also resets the custom
 block size

---
 stenos/internal/stenos.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 63af7db..3c379da 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -244,11 +244,8 @@ void stenos_destroy_context(stenos_context* ctx)
 
 void stenos_reset_context(stenos_context* ctx)
 {
-	if (ctx) {
-		ctx->level = 1;
-		ctx->threads = 1;
-		ctx->t.nanoseconds = 0;
-	}
+	if (ctx)
+		ctx->reset_parameters();
 }
 
 size_t stenos_set_level(stenos_context* ctx, int level)
-- 
2.43.0


From 82d1622fa420b3053e3ddda3cb65910b24e2ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 04/53] fix: do not keep the plain copy mode of a previous time
 limited compression

---
 stenos/internal/stenos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 3c379da..5e53716 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -175,10 +175,10 @@ struct stenos_context_s
 		}
 
 		// Initialize the time constraint
+		t.finish_memcpy.store(false);
+		t.processed_bytes.store(0);
 		if (t.nanoseconds) {
 			t.total_bytes = bytes;
-			t.finish_memcpy.store(false);
-			t.processed_bytes.store(0);
 			t.timer.tick();
 		}
 		return 0;
-- 
2.43.0


From d1c2959099f30015629a4afd756aa4c8098f79af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 05/53] fix: wake up every context waiting on the thread pool

The waiting flag was shared by all waiters and reset by the first one to
leave wait(), so another waiter could sleep forever.
---
 stenos/internal/tiny_pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 5768792..464d6b4 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -232,7 +232,7 @@ namespace stenos
 		detail::TaskList list;
 		std::vector<std::thread> threads;
 		bool finish = false;
-		bool waiting = false;
+		unsigned waiting = 0; // number of threads inside wait()
 		unsigned processing = 0;
 
 		void do_work() noexcept
@@ -284,9 +284,9 @@ namespace stenos
 		void wait() noexcept
 		{
 			std::unique_lock<std::mutex> lock(mutex);
-			waiting = true;
+			++waiting;
 			wait_condition.wait(lock, [this] { return (this->processing == 0) && this->list.empty(); });
-			waiting = false;
+			--waiting;
 		}
 
 		template<class U>
-- 
2.43.0


From 8c291e2daff29a9ce915ee5f9bbd809a089d69c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 06/53] fix: thread pool stop flag race and empty pool

finish is read without the mutex by the workers, and a pool created with
0 thread (unknown hardware concurrency) started none.
---
 stenos/internal/tiny_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 464d6b4..74a07ad 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -231,7 +231,7 @@ namespace stenos
 		std::condition_variable wait_condition;
 		detail::TaskList list;
 		std::vector<std::thread> threads;
-		bool finish = false;
+		std::atomic<bool> finish{ false };
 		unsigned waiting = 0; // number of threads inside wait()
 		unsigned processing = 0;
 
@@ -264,7 +264,7 @@ namespace stenos
 		  , processing(nthreads)
 		{
 			if (nthreads == 0) {
-				processing = 1;
+				nthreads = processing = 1;
 				threads.resize(1);
 			}
 			for (unsigned i = 0; i < nthreads; ++i)
-- 
2.43.0


From ff74d19538ed7312022ab5cd428a4557f8e4c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 07/53] fix: use after free and ABA in the task buffers list

pop() dereferenced a buffer that another thread might have extracted,
freed or pushed back in between.
---
 stenos/internal/tiny_pool.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 74a07ad..a5184ea 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -52,7 +52,8 @@ namespace stenos
 		struct TaskAllocation
 		{
 
-			std::atomic<TaskBuffer*> first{ nullptr };
+			std::mutex mutex;
+			TaskBuffer* first{ nullptr };
 
 			~TaskAllocation() noexcept
 			{
@@ -64,9 +65,10 @@ namespace stenos
 			TaskBuffer* pop() noexcept
 			{
 				// Extract a buffer from the list
-				auto f = first.load(std::memory_order_relaxed);
-				while (f && !first.compare_exchange_strong(f, f->next))
-					;
+				std::lock_guard<std::mutex> lock(mutex);
+				TaskBuffer* f = first;
+				if (f)
+					first = f->next;
 				return f;
 			}
 
@@ -93,11 +95,9 @@ namespace stenos
 			{
 				// Insert the buffer in the list
 				TaskBuffer* b = (TaskBuffer*)((uint8_t*)p - sizeof(TaskBuffer));
-				auto f = first.load(std::memory_order_relaxed);
-				b->next = f;
-				while (!first.compare_exchange_strong(f, b)) {
-					b->next = f;
-				}
+				std::lock_guard<std::mutex> lock(mutex);
+				b->next = first;
+				first = b;
 			}
 
 			static STENOS_ALWAYS_INLINE TaskAllocation& instance()
-- 
2.43.0


From 9e9ecd8f093112cb8657ba33b9abaf9f7a31bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 08/53] fix: allocation failure while pushing tasks to the
 thread pool

A failed allocation dereferenced a null pointer, and the early return left
already queued tasks working on dead local variables.
---
 stenos/internal/stenos.cpp  | 14 +++++++++++---
 stenos/internal/tiny_pool.h |  7 +++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 5e53716..9675580 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -957,8 +957,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 							    opts->t.processed_bytes.fetch_add(in_size);
 					    }
 				    }
-			    }))
+			    })) {
+				// The tasks already pushed use local variables
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
@@ -995,8 +998,10 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 					    else {
 						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 					    }
-				    }))
+				    })) {
+					stenos::pool->wait();
 					return STENOS_ERROR_ALLOC;
+				}
 			}
 			stenos::pool->wait();
 
@@ -1186,8 +1191,11 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			if (!stenos::pool->push([&, i]() {
 				    Block& bl = blocks[(size_t)i];
 				    bl.ret = stenos::decompress_generic_superblock(opts, bl.code, bl.src, bytesoftype, bl.csize, bl.dst, bl.dsize, opts->thread_buffers[(size_t)i]);
-			    }))
+			    })) {
+				// The tasks already pushed use local variables
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index a5184ea..45f3663 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -86,8 +86,9 @@ namespace stenos
 
 				// Allocate
 				TaskBuffer* res = (TaskBuffer*)malloc(s + sizeof(TaskBuffer));
-				if (res)
-					new (res) TaskBuffer{ nullptr, s };
+				if (!res)
+					return nullptr;
+				new (res) TaskBuffer{ nullptr, s };
 				return res->data();
 			}
 
@@ -179,6 +180,8 @@ namespace stenos
 			{
 				try {
 					Task<U>* t = (Task<U>*)allocate_task(sizeof(Task<U>));
+					if STENOS_UNLIKELY (!t)
+						return nullptr;
 					return new (t) Task<U>(std::forward<U>(u));
 				}
 				catch (...) {
-- 
2.43.0


From 718550dc37862f218e9056643a7e574585353a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 09/53] fix: data race on the error code of the parallel copy

---
 stenos/internal/stenos.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 9675580..146f7b4 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -989,11 +989,13 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 				src += opts->superblock_size;
 			}
 
+			std::atomic<bool> overflow{ false };
+
 			// copy to destination in parallel
 			for (int i = 0; i < thread_count; ++i) {
 				if (!stenos::pool->push([&, i]() {
 					    if ((uint8_t*)opts->thread_buffers[i]->dst + opts->thread_buffers[i]->dst_size > dst_end) {
-						    res_code = STENOS_ERROR_DST_OVERFLOW;
+						    overflow.store(true);
 					    }
 					    else {
 						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
@@ -1005,8 +1007,10 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 			}
 			stenos::pool->wait();
 
-			if STENOS_UNLIKELY (res_code)
+			if STENOS_UNLIKELY (overflow.load()) {
+				res_code = STENOS_ERROR_DST_OVERFLOW;
 				goto end;
+			}
 		}
 		chunks -= (size_t)thread_count;
 	}
-- 
2.43.0


From bdd1ee81ea8ae643aa55b6df664bc689207f21d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 10/53] fix: requested speed once the time limit is exceeded

The unsigned subtraction wrapped around and the slowest settings were used.
---
 stenos/internal/stenos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 146f7b4..07f9420 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -27,6 +27,8 @@
 #pragma clang diagnostic ignored "-Wreserved-id-macro"
 #endif
 
+#include <limits>
+
 #include "block_compress.h"
 #include "zstd_wrapper.h"
 #include "delta.h"
@@ -108,7 +110,11 @@ struct stenos_context_s
 	STENOS_ALWAYS_INLINE double requested_speed() noexcept
 	{
 		// Compute the requested speed in B/s for the remaining bytes
-		auto remaining = (t.nanoseconds - t.timer.tock()) * 1e-9;
+		auto elapsed = t.timer.tock();
+		if (elapsed >= t.nanoseconds)
+			// No more time
+			return std::numeric_limits<double>::max();
+		auto remaining = (t.nanoseconds - elapsed) * 1e-9;
 		return (t.total_bytes - t.processed_bytes.load(std::memory_order_relaxed)) / remaining;
 	}
 
-- 
2.43.0


From c97d2890329d04a45ee8a116d7d2026e7365f96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 11/53] fix: heap overflow in the compression of a partial
 block

The buffer of the last partial block holds 256 * bytesoftype bytes.
---
 stenos/internal/block_compress.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 7e0f42a..22b116b 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -319,15 +319,15 @@ namespace stenos
 				buffer = align_buffer(buffer);
 				this->arrays = reinterpret_cast<vector256*>(buffer);
 				this->partial_buffer = static_cast<char*>(buffer) + 256 * bytesoftype;
-				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype + 256);
-				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype);
+				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype * 2);
+				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype * 2 + sizeof(PackBits) * bytesoftype);
 			}
 		};
 
 		// Size of internal compression buffer for given bytesoftype
 		static STENOS_ALWAYS_INLINE size_t compression_buffer_size(size_t bytesoftype) noexcept
 		{
-			return 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
+			return 256 * bytesoftype * 2 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
 		}
 
 		// Bit scan reverse on 2 * 16 bytes
-- 
2.43.0


From 4c0bc0dc7f3cf312d9ea5565e93711dc20b5d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 12/53] fix: uninitialized LZ hash table

The compressed bytes depended on the previous content of the stack.
---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 22b116b..05917c5 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1208,7 +1208,7 @@ namespace stenos
 
 			// Test LZ compression for level 2
 			if (level == 2 && bytesoftype % 4 == 0 && full_size * 3 > block_size) {
-				uint16_t buffer[256];
+				uint16_t buffer[256] = {};
 
 				// To avoid dst overflow, we need at least 8 * bytesoftype + 1 bytes above full_size
 				if STENOS_UNLIKELY (dst_end > dst + (full_size + bytesoftype * 8u + 2u)) { // add one byte for __STENOS_BLOCK_LZ
-- 
2.43.0


From e9bb907f27e2206f06ee51bb39e0c79c51c1ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 13/53] fix: read overflow while decoding a corrupted copied
 block

---
 stenos/internal/block_compress.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 05917c5..8db0f0c 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1822,6 +1822,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
@@ -2117,6 +2119,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
-- 
2.43.0


From 24441334ded2800602300bd47501a1d7c6f9fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 14/53] fix: one byte read overflow in the RLE decoding of the
 last row

---
 stenos/internal/block_compress.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 8db0f0c..036d463 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1953,11 +1953,11 @@ namespace stenos
 			// to the index 0 while shifting the rest to the right by 1 byte (if repetition
 			// from previous row).
 			// The version below is faster than using a bunch of intrinsics.
-			vector16 buff;
+			vector16 buff = {};
 			uint8_t has_first;
 			if STENOS_UNLIKELY (remaining < 16) {
 				has_first = (mask & 1);
-				memcpy(&buff, src - (mask & 1), remaining + 1);
+				memcpy(&buff, src - (mask & 1), remaining + (mask & 1));
 			}
 			else {
 				has_first = (mask & 1);
-- 
2.43.0


From ef20f211edcba7d10eb0f1845ce006a58bda46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 15/53] fix: missing bounds checks in the scalar decoding of
 corrupted blocks

---
 stenos/internal/block_compress.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 036d463..af4a324 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1684,7 +1684,11 @@ namespace stenos
 			uint32_t lines2 = lines & (~1u);
 			for (uint32_t i = 0; i < lines2; i += 2) {
 				src = decode_line(headers[i], src, end, dst, i, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 				src = decode_line(headers[i + 1], src, end, dst, i + 1, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 			}
 			if (lines != lines2) {
 				src = decode_line(headers[lines2], src, end, dst, lines2, inner_stride, outer_stride, mins);
@@ -1728,6 +1732,9 @@ namespace stenos
 							      const uint8_t* STENOS_RESTRICT end,
 							      uint32_t lines = 16) noexcept
 		{
+			if STENOS_UNLIKELY (end - src < (ptrdiff_t)((lines + 1) / 2))
+				return nullptr;
+
 			// read compressed mins
 			vector16 headers, mins;
 			auto lines2 = lines & (~1u);
-- 
2.43.0


From be092187d86a7bfeb6e5dafafcadf0ffb100def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 16/53] fix: LZ decoding of corrupted offsets

Offsets were only checked in debug builds, and an offset could be read after
the end of the input.
---
 stenos/internal/lz_compress.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/lz_compress.h b/stenos/internal/lz_compress.h
index fcdb889..628fab5 100644
--- a/stenos/internal/lz_compress.h
+++ b/stenos/internal/lz_compress.h
@@ -255,13 +255,17 @@ namespace stenos
 			for (uint8_t j = 0; j < 8; ++j) {
 				if ((anchor >> j) & 1) {
 					// Copy Bytes from offset in dst
+					if STENOS_UNLIKELY (in == end)
+						return nullptr;
 					uint16_t offset = *in & 127U;
 					if (*in++ > 127U) {
 						if STENOS_UNLIKELY (in == end)
 							return nullptr;
 						offset |= ((*in++) << 7U);
 					}
-					STENOS_ASSERT_DEBUG(dst - offset * Bytes >= _dst, "");
+					// An offset of 0 would read unwritten bytes
+					if STENOS_UNLIKELY (offset == 0 || (size_t)offset * Bytes > (size_t)(dst - _dst))
+						return nullptr;
 					dst = inline_memcpy<Bytes>(dst, dst - offset * Bytes);
 				}
 				else {
-- 
2.43.0


From c95f125807ffbcb2d9d7d9483a7db048210aa1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 17/53] fix: reject superblocks that do not decode to their
 full size

A shorter block was accepted as a success, leaving bytes of the destination
unwritten.
---
 stenos/internal/stenos.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 07f9420..7c52ea3 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -691,13 +691,13 @@ namespace stenos
 			case STENOS_FRAME_HEADER_BLOCK: {
 				// Direct block compression
 				auto r = block_decompress_generic(src, csize, bytesoftype, dsize, dst);
-				if STENOS_UNLIKELY (has_error(r))
+				if STENOS_UNLIKELY (has_error(r) || csize == 0 || r != csize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_ZSTD: {
 				// Direct zstd compression
 				auto r = ZSTD_decompress(dst, dsize, src, csize);
-				if STENOS_UNLIKELY (ZSTD_isError(r))
+				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_TRANSPOSED_ZSTD: {
@@ -733,11 +733,12 @@ namespace stenos
 					return STENOS_ERROR_ALLOC;
 				// zstd decompression
 				auto r = ZSTD_decompress(buffer->bytes, ctx->superblock_size, src, csize);
-				if STENOS_UNLIKELY (ZSTD_isError(r))
+				if STENOS_UNLIKELY (ZSTD_isError(r) || r == 0)
 					return STENOS_ERROR_INVALID_INPUT;
 				// block decompression
-				r = block_decompress_generic(buffer->bytes, r, bytesoftype, dsize, dst);
-				if STENOS_UNLIKELY (has_error(r))
+				const size_t block_size = r;
+				r = block_decompress_generic(buffer->bytes, block_size, bytesoftype, dsize, dst);
+				if STENOS_UNLIKELY (has_error(r) || r != block_size)
 					return STENOS_ERROR_INVALID_INPUT;
 
 			} break;
-- 
2.43.0


From d82760d09c920fc342d98f39dd0f675988df16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 18/53] fix: validate the superblock size read from a frame
 header

A null size was used as divisor.
---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 7c52ea3..51b708c 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1119,6 +1119,10 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 		// Default superblock size
 		superblock_size = stenos::super_block_size(block_size) << shift;
 
+	// Check superblock size validity
+	if STENOS_UNLIKELY (superblock_size == 0 || superblock_size >= STENOS_MAX_BLOCK_BYTES)
+		return STENOS_ERROR_INVALID_INPUT;
+
 	// Clear buffers
 	if (superblock_size != opts->superblock_size)
 		opts->clear_buffers();
-- 
2.43.0


From 60cd943c3acf787fb24667988fad115b68fca82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 19/53] fix: byte delta inverse of less than 32 bytes

The SIMD versions started from the byte located before the destination.
---
 stenos/internal/delta.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/internal/delta.cpp b/stenos/internal/delta.cpp
index 0ce4ded..ce35100 100644
--- a/stenos/internal/delta.cpp
+++ b/stenos/internal/delta.cpp
@@ -471,6 +471,9 @@ namespace stenos
 
 	void delta_inv(const void* src, void* dst, size_t bytes)
 	{
+		if (bytes < 32)
+			// Smaller than a SIMD register
+			return delta_inv_generic(src, dst, bytes);
 
 #ifdef __AVX2__
 		if (cpu_features().HAS_AVX2)
-- 
2.43.0


From c1a3f9d5a8f6c8ddfc2d42754e9a8f8c893c1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 20/53] fix: check bytesoftype in stenos_get_info()

0 was used as divisor.
---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 51b708c..6d33703 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1033,6 +1033,10 @@ size_t stenos_get_info(const void* _src, size_t bytesoftype, size_t bytes, steno
 {
 	// Retrieve information on a compressed frame
 
+	// Check bytesoftype validity
+	if STENOS_UNLIKELY (bytesoftype == 0 || bytesoftype >= STENOS_MAX_BYTESOFTYPE)
+		return STENOS_ERROR_INVALID_BYTESOFTYPE;
+
 	const uint8_t* src = (const uint8_t*)_src;
 	const uint8_t* end_src = src + bytes;
 
-- 
2.43.0


From a5c4a1ef7778bdc7c105ce699268c6e2a7499ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 21/53] fix: big bytesoftype were rejected depending on the
 compression level

The default superblock size exceeded STENOS_MAX_BLOCK_BYTES.
---
 stenos/internal/stenos.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 6d33703..2d9cf02 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -118,6 +118,14 @@ struct stenos_context_s
 		return (t.total_bytes - t.processed_bytes.load(std::memory_order_relaxed)) / remaining;
 	}
 
+	static STENOS_ALWAYS_INLINE int clamp_shift(size_t size, int shift) noexcept
+	{
+		// Reduce the shift of the default superblock size to remain below STENOS_MAX_BLOCK_BYTES (big bytesoftype)
+		while (shift > 0 && (size << (size_t)shift) >= STENOS_MAX_BLOCK_BYTES)
+			--shift;
+		return shift;
+	}
+
 	size_t prepare(size_t bytesoftype, size_t bytes) noexcept
 	{
 		// Prepare the compresson of given number of bytes
@@ -144,7 +152,7 @@ struct stenos_context_s
 				// Default strategy for level 9
 				new_superblock_size = stenos::super_block_size(block_size);
 				if (bytes > new_superblock_size) {
-					shift = (9 - 1) / 2;
+					shift = clamp_shift(new_superblock_size, (9 - 1) / 2);
 					new_superblock_size = new_superblock_size << (size_t)shift;
 				}
 			}
@@ -164,7 +172,7 @@ struct stenos_context_s
 				// Compute superblock size
 				new_superblock_size = stenos::super_block_size(block_size);
 				if (bytes > new_superblock_size) {
-					shift = level ? (level - 1) / 2 : 0;
+					shift = clamp_shift(new_superblock_size, level ? (level - 1) / 2 : 0);
 					new_superblock_size = new_superblock_size << (size_t)shift;
 				}
 			}
-- 
2.43.0


From adcfc958569bf299ab365de89de6a049a26db5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 22/53] fix: integer overflow (and division by 0) with a big
 thread count and a time limit

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 2d9cf02..530b887 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -139,7 +139,7 @@ struct stenos_context_s
 
 		if (t.nanoseconds) {
 			// try to have at least thread * 32 super block
-			size_t required_superblock_count = threads * 32;
+			size_t required_superblock_count = (size_t)threads * 32;
 			size_t required_superblock_size = bytes / required_superblock_count;
 
 			size_t block_count = required_superblock_size / block_size;
-- 
2.43.0


From 55cd5f0981acb34fcca84368c9a421e7c5fad3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 23/53] fix: allocation failures

stenos_make_context() and the thread local block buffer used a null pointer,
a partially failed resize left vectors of different sizes, and
stenos_decompress_generic() let std::bad_alloc escape from the C API.
---
 stenos/internal/block_compress.h |  2 +-
 stenos/internal/stenos.cpp       | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index af4a324..1c20607 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -939,7 +939,7 @@ namespace stenos
 			if (buf.buffer)
 				stenos::aligned_free(buf.buffer);
 			buf.buffer = stenos::aligned_malloc(size, 16);
-			buf.size = size;
+			buf.size = buf.buffer ? size : 0;
 		}
 		return buf.buffer;
 	}
diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 530b887..45e7a0a 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -203,6 +203,10 @@ struct stenos_context_s
 		// Ensure that we have the requested number of buffers
 		try {
 			if (thread_buffers.size() < (size_t)size) {
+				// Reserve first: the 3 vectors must keep the same size if one allocation fails
+				thread_buffers.reserve((size_t)size);
+				tmp_buffers1.reserve((size_t)size);
+				tmp_buffers2.reserve((size_t)size);
 				thread_buffers.resize((size_t)size, nullptr);
 				tmp_buffers1.resize((size_t)size, nullptr);
 				tmp_buffers2.resize((size_t)size, nullptr);
@@ -245,6 +249,8 @@ struct stenos_context_s
 stenos_context* stenos_make_context()
 {
 	stenos_context* ctx = (stenos_context*)malloc(sizeof(stenos_context_s));
+	if STENOS_UNLIKELY (!ctx)
+		return nullptr;
 	return new (ctx) stenos_context_s();
 }
 
@@ -1183,7 +1189,13 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Multithread decompression
 
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count);
-	std::vector<Block> blocks((size_t)threads);
+	std::vector<Block> blocks;
+	try {
+		blocks.resize((size_t)threads);
+	}
+	catch (...) {
+		return STENOS_ERROR_ALLOC;
+	}
 	if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
 		return STENOS_ERROR_ALLOC;
 
-- 
2.43.0


From cec21d4affe992d5ba7dad97b8ef178696e3cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 24/53] fix: cvector never destroyed its compression context

---
 stenos/cvector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a910398..86977ff 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1455,7 +1455,11 @@ namespace stenos
 				stenos_set_level(d_ctx, level);
 			}
 
-			~CompressedVectorInternal() noexcept { clear(); }
+			~CompressedVectorInternal() noexcept
+			{
+				clear();
+				stenos_destroy_context(d_ctx);
+			}
 
 			/// @brief Deallocate compressed memory for given bucket
 			void dealloc_bucket(size_t index) noexcept
-- 
2.43.0


From 0e8bd7cb9346b2af9eacc117bd38a8a81392c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 25/53] fix: cvector copy assignment to a default constructed
 vector, and exceptions

---
 stenos/cvector.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 86977ff..43f8515 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2604,7 +2604,7 @@ namespace stenos
 			if (this != std::addressof(other)) {
 
 				if STENOS_CONSTEXPR (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
+					if (d_data && get_allocator() != other.get_allocator()) {
 						destroy_internal(d_data);
 						d_data = nullptr;
 					}
@@ -2616,19 +2616,15 @@ namespace stenos
 				else {
 					internal_type* tmp = make_internal(get_allocator());
 					try {
-						try {
-							other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
-						}
-						catch (...) {
-							destroy_internal(tmp);
-							throw;
-						}
-						destroy_internal(d_data);
-						d_data = tmp;
+						other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
 					}
 					catch (...) {
 						destroy_internal(tmp);
+						throw;
 					}
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = tmp;
 				}
 			}
 			return *this;
-- 
2.43.0


From 2126f1e151763cb2feb2dee973047b0c85cbabbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 26/53] fix: cvector constructors leak their content when an
 exception is thrown

---
 stenos/cvector.hpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 43f8515..5c45e68 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2502,8 +2502,7 @@ namespace stenos
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		cvector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2511,8 +2510,7 @@ namespace stenos
 		/// @param count new cvector size
 		/// @param alloc allocator object
 		explicit cvector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count);
 		}
@@ -2526,14 +2524,10 @@ namespace stenos
 		/// @param other other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allcoator object
 		cvector(const cvector& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(nullptr)
+		  : cvector(alloc)
 		{
-			if (other.size()) {
-				d_data = make_internal(alloc);
-				// calling push_back is faster than resize + copy
-				other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
-			}
+			// calling push_back is faster than resize + copy
+			other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
 		}
 		/// @brief Move constructor. Constructs the container with the contents of other using move semantics. Allocator is obtained by move-construction from the allocator belonging to other.
 		/// @param other another container to be used as source to initialize the elements of the container with
@@ -2548,8 +2542,7 @@ namespace stenos
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		cvector(cvector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_data, other.d_data);
@@ -2566,8 +2559,7 @@ namespace stenos
 		/// @param alloc allocator object
 		template<class Iter, detail::IfIsInputIterator<Iter> = true>
 		cvector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From b978536ee4d9e270da366d4c9dcc2adf39d1bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 27/53] fix: cvector serialization of a full last chunk

---
 stenos/cvector.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5c45e68..e27e8ee 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3043,16 +3043,17 @@ namespace stenos
 					// check if last bucket is empty
 					auto* buffer = &d_data->d_buckets.back();
 					auto* raw = buffer->load_decompressed();
-					if (!raw || raw->size == 0)
+					if (raw && raw->size == 0)
 						goto end;
 
 					// check if last bucket is full and compressed
-					if (raw->size == block_size && raw->buffer) {
-						size_t csize = stenos_private_block_csize(raw->buffer);
+					const char* compressed = buffer->data.find_compressed();
+					if (!raw || (compressed && !raw->dirty)) {
+						size_t csize = stenos_private_block_csize(compressed);
 						if STENOS_UNLIKELY (dst + csize > dst_end)
 							return STENOS_ERROR_DST_OVERFLOW;
 
-						memcpy(dst, raw->buffer, csize);
+						memcpy(dst, compressed, csize);
 						dst += csize;
 						goto end;
 					}
@@ -3253,13 +3254,14 @@ namespace stenos
 			if (i == d_data->d_buckets.size() - 1) {
 				// check if last bucket is empty
 				auto* buffer = &d_data->d_buckets.back();
-				auto* raw = buffer->data.raw();
-				if (!raw || raw->size == 0)
+				auto* raw = buffer->load_decompressed();
+				if (raw && raw->size == 0)
 					goto end;
 
 				// check if last bucket is full and compressed
-				if (raw->size == block_size && raw->buffer) {
-					oss.write((char*)raw->buffer, stenos_private_block_csize(raw->buffer));
+				const char* compressed = buffer->data.find_compressed();
+				if (!raw || (compressed && !raw->dirty)) {
+					oss.write(compressed, stenos_private_block_csize(compressed));
 					if STENOS_UNLIKELY (!oss)
 						return STENOS_ERROR_DST_OVERFLOW;
 					goto end;
-- 
2.43.0


From ad89c4b184c498160ad71407361df5c1cf952ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 28/53] fix: cvector is left in an invalid state after a failed
 deserialization

---
 stenos/cvector.hpp | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e27e8ee..b1173c1 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -702,7 +702,7 @@ namespace stenos
 			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
 			res->size = 0;
 			res->dirty = 0;
-			res->block_index = 0;
+			res->block_index = RawBuffer<T, block_size>::invalid_index;
 			res->buffer = nullptr;
 			res->left = res->right = nullptr;
 			return res;
@@ -3089,11 +3089,45 @@ namespace stenos
 		template<class Ostream>
 		size_t serialize(Ostream& oss);
 
+		/// @brief Deserialize cvector content from a buffer.
+		/// Returns the number of elements on success. On error (or exception), the cvector is left empty.
 		size_t deserialize(const void* _src, size_t src_size)
+		{
+			return deserialize_or_clear([&]() { return this->deserialize_buffer(_src, src_size); });
+		}
+
+		/// @brief Deserialize cvector content from a std::istream object.
+		/// Returns the number of elements on success. On error (or exception), the cvector is left empty.
+		template<class Istream>
+		size_t deserialize(Istream& iss)
+		{
+			return deserialize_or_clear([&]() { return this->deserialize_stream(iss); });
+		}
+
+	private:
+		template<class Fun>
+		size_t deserialize_or_clear(Fun&& fun)
 		{
 			clear();
 			make_data_if_null();
 
+			size_t r = 0;
+			try {
+				r = fun();
+			}
+			catch (...) {
+				d_data->clear();
+				throw;
+			}
+			// Do not keep a partial content
+			if STENOS_UNLIKELY (stenos_has_error(r))
+				d_data->clear();
+			return r;
+		}
+
+		size_t deserialize_buffer(const void* _src, size_t src_size)
+		{
+
 			const uint8_t* src = (const uint8_t*)_src;
 			const uint8_t* src_end = src + src_size;
 
@@ -3183,7 +3217,7 @@ namespace stenos
 		}
 
 		template<class Istream>
-		size_t deserialize(Istream& iss);
+		size_t deserialize_stream(Istream& iss);
 	};
 
 } // end namespace stenos
@@ -3292,11 +3326,8 @@ namespace stenos
 
 	template<class T, unsigned BlockSize, int Level, class Alloc>
 	template<class Istream>
-	size_t cvector<T, BlockSize, Level, Alloc>::deserialize(Istream& iss)
+	size_t cvector<T, BlockSize, Level, Alloc>::deserialize_stream(Istream& iss)
 	{
-		clear();
-		make_data_if_null();
-
 		uint8_t header[12];
 		iss.read((char*)header, 12);
 		if STENOS_UNLIKELY (!iss)
-- 
2.43.0


From 2fccba6ccc37e6eb5bb5985442b63aa22aaf6395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 29/53] fix: cvector deserialization from a stream of a frame
 without superblock size

---
 stenos/cvector.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index b1173c1..fdf1e66 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3127,7 +3127,6 @@ namespace stenos
 
 		size_t deserialize_buffer(const void* _src, size_t src_size)
 		{
-
 			const uint8_t* src = (const uint8_t*)_src;
 			const uint8_t* src_end = src + src_size;
 
@@ -3329,13 +3328,19 @@ namespace stenos
 	size_t cvector<T, BlockSize, Level, Alloc>::deserialize_stream(Istream& iss)
 	{
 		uint8_t header[12];
-		iss.read((char*)header, 12);
+		iss.read((char*)header, 8);
 		if STENOS_UNLIKELY (!iss)
 			return STENOS_ERROR_SRC_OVERFLOW;
 
 		stenos_info info;
-		// Read frame info
-		size_t r = stenos_get_info(header, sizeof(T), 12, &info);
+		// Read frame info, the superblock size is optional
+		size_t r = stenos_get_info(header, sizeof(T), 8, &info);
+		if (r == STENOS_ERROR_SRC_OVERFLOW) {
+			iss.read((char*)header + 8, 4);
+			if STENOS_UNLIKELY (!iss)
+				return STENOS_ERROR_SRC_OVERFLOW;
+			r = stenos_get_info(header, sizeof(T), 12, &info);
+		}
 		if STENOS_UNLIKELY (stenos_has_error(r))
 			return r;
 
-- 
2.43.0


From d395dfe6bd180f0c7f7a7a3007d0241c4ac8289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 30/53] fix: cvector modifications lost when for_each() stops
 early or throws

---
 stenos/cvector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index fdf1e66..c27ccee 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -923,14 +923,14 @@ namespace stenos
 			STENOS_ALWAYS_INLINE void set(const T& obj)
 			{
 				auto raw = this->decompress_if_needed();
-				raw->at(this->bpos) = obj;
 				raw->mark_dirty();
+				raw->at(this->bpos) = obj;
 			}
 			STENOS_ALWAYS_INLINE void set(T&& obj)
 			{
 				auto raw = this->decompress_if_needed();
-				raw->at(this->bpos) = std::move(obj);
 				raw->mark_dirty();
+				raw->at(this->bpos) = std::move(obj);
 			}
 
 			STENOS_ALWAYS_INLINE operator const T&() const { return this->get(); }
@@ -2303,6 +2303,8 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// mark as dirty first, as the functor might throw or stop the iteration
+					cur->mark_dirty(this);
 					remaining -= to_process;
 					size_t en = pos + to_process;
 					for (size_t p = pos; p != en; ++p, ++res)
@@ -2310,7 +2312,6 @@ namespace stenos
 							return res;
 					pos = 0;
 					++bindex;
-					cur->mark_dirty(this);
 				}
 				return res;
 			}
@@ -2367,12 +2368,13 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// mark as dirty first, as the functor might throw or stop the iteration
+					cur->mark_dirty(this);
 					difference_type low = bindex == first_bucket ? first_index : 0;
 					difference_type high = bindex == last_bucket ? last_index : static_cast<difference_type>(block_size - 1);
 					for (difference_type i = high; i >= low; --i, ++res)
 						if (!eval_functor(std::forward<Functor>(fun), cur->at((unsigned)i)))
 							return res;
-					cur->mark_dirty(this);
 				}
 
 				return res;
-- 
2.43.0


From 57362646802f96bf0e0f61287117a72f182f6e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 31/53] fix: cvector::resize() leaks elements when a
 constructor throws

---
 stenos/cvector.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index c27ccee..4b11fe6 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2058,15 +2058,15 @@ namespace stenos
 						while (size() < new_size - block_size) {
 							size_t r = 0;
 							// Generic way to compress one value repeated
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i));
-							// compress
-							r = compress(raw.storage);
+							raw.size = 0;
 
 							char* buff = nullptr;
 							try {
+								// construct, might throw, see below
+								for (; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size));
+								// compress
+								r = compress(raw.storage);
 								// might throw, see below
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
@@ -2112,15 +2112,15 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i), val);
-							// compress
-							r = compress(raw.storage);
+							raw.size = 0;
 
 							char* buff = nullptr;
 							try {
+								// construct, might throw, see below
+								for (; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size), val);
+								// compress
+								r = compress(raw.storage);
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
 								memcpy(buff, compression_buffer(), r);
-- 
2.43.0


From 6a82647f342155a8a5cc8ba1411e0f1adc0bf848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 32/53] fix: cvector loses a chunk (and keeps a lock) when the
 allocation of its compressed buffer fails

---
 stenos/cvector.hpp | 63 ++++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 44 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 4b11fe6..d6f9cf5 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1613,13 +1613,12 @@ namespace stenos
 					// If the context is dirty, compress it
 					if (raw->dirty) {
 						// Find the corresponding PackBuffer, excluding front and back buckets
-						size_t index = raw->block_index;
-						STENOS_ASSERT_DEBUG(index != RawType::invalid_index, "raw block must belong to an existing bucket");
+						STENOS_ASSERT_DEBUG(raw->block_index != RawType::invalid_index, "raw block must belong to an existing bucket");
 						// Compress
 						size_t r = compress(raw->storage);
 						if (r != stenos_private_block_csize(raw->buffer)) {
 							// Free old buffer, alloc new one, update compressed size, might throw (fine)
-							char* buff = this->allocate_buffer_for_compression((unsigned)r, &d_buckets[index], index, raw);
+							char* buff = RebindAlloc<char>(*this).allocate(r);
 
 							if (raw->buffer)
 								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
@@ -1675,43 +1674,6 @@ namespace stenos
 					return d_buckets[raw->block_index].ref_count.unlock();
 			}
 
-			/// @brief Allocate and return buffer of given size.
-			/// In case of exception, decompress and destroy values, deallocate previous buffer, remove bucket, remove decompression context and rethrow.
-			auto allocate_buffer_for_compression(unsigned size, BucketType* bucket, size_t bucket_index, RawType* context) -> char*
-			{
-				char* buff = nullptr;
-				try {
-					buff = RebindAlloc<char>(*this).allocate(size); //(char*)malloc(r);
-				}
-				catch (...) {
-					// unlock bucket
-					unlock(context);
-					// deallocate
-					if (bucket->data) {
-						// first destroy values
-						char* buffer = bucket->data.find_compressed();
-						if (!std::is_trivially_destructible<T>::value) {
-							context->size = block_size;
-							this->decompress(bucket, context->storage);
-							context->clear_values();
-						}
-						RebindAlloc<char>(*this).deallocate(buffer, stenos_private_block_csize(buffer));
-					}
-					// remove context
-					erase_context(context);
-					// remove bucket
-					d_buckets.erase(d_buckets.begin() + static_cast<difference_type>(bucket_index));
-
-					// update indexes
-					for (size_t i = bucket_index; i < d_buckets.size(); ++i)
-						if (auto raw = d_buckets[i].load_decompressed())
-							raw->block_index = i;
-
-					throw;
-				}
-				return buff;
-			}
-
 			/// @brief Returns a decompression context either by creating a new one, or by reusing an existing one
 			auto make_or_find_free_context(RawType* exclude = nullptr) -> RawType*
 			{
@@ -1765,7 +1727,6 @@ namespace stenos
 
 				RawType* found_raw = *found;
 				BucketType* found_bucket = (*found)->block_index == RawType::invalid_index ? nullptr : &d_buckets[(*found)->block_index];
-				size_t saved_index = (*found)->block_index;
 
 				// Compress context if dirty
 				if (found_raw->dirty) {
@@ -1776,7 +1737,15 @@ namespace stenos
 
 					if (r != stenos_private_block_csize(found_raw->buffer)) {
 						// Free old memory, alloc new one
-						char* buff = allocate_buffer_for_compression((unsigned)r, found_bucket, saved_index, found_raw);
+						char* buff = nullptr;
+						try {
+							buff = RebindAlloc<char>(*this).allocate(r);
+						}
+						catch (...) {
+							// The dirty chunk is left untouched, just unlock it
+							unlock(found_raw);
+							throw;
+						}
 						if (found_raw->buffer)
 							RebindAlloc<char>(*this).deallocate(found_raw->buffer, stenos_private_block_csize(found_raw->buffer));
 						found_raw->buffer = buff;
@@ -1786,7 +1755,13 @@ namespace stenos
 
 					// Use this opportunity to free another context if possible
 					if (!start && d_contexts.size() > d_buckets.size() / 16) {
-						RawType* raw = find_free_context(exclude, &found);
+						RawType* raw = nullptr;
+						try {
+							raw = find_free_context(exclude, &found);
+						}
+						catch (...) {
+							// Only an optimization, keep the context and go on
+						}
 						if (raw)
 							erase_context(raw);
 					}
@@ -1829,7 +1804,7 @@ namespace stenos
 				// Compress
 				size_t r = compress(decompressed->storage);
 				if (r != stenos_private_block_csize(decompressed->buffer)) {
-					char* buff = allocate_buffer_for_compression((unsigned)r, bucket, index, decompressed);
+					char* buff = RebindAlloc<char>(*this).allocate(r); // might throw, fine (nothing changed yet)
 					if (decompressed->buffer)
 						RebindAlloc<char>(*this).deallocate(decompressed->buffer, stenos_private_block_csize(decompressed->buffer));
 					decompressed->buffer = buff;
-- 
2.43.0


From 81d7279cccaefa7199860315d9eab49ebb24837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 33/53] fix: cvector keeps a dirty chunk without block when a
 back insertion fails

---
 stenos/cvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index d6f9cf5..8649fc1 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1822,17 +1822,17 @@ namespace stenos
 				if (d_buckets.empty() || d_buckets.back().data.compressed()) {
 					// no buckets or the back buffer is compressed, create a new one
 					RawType* raw = make_or_find_free_context();
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
 					raw->block_index = d_buckets.size() - 1;
+					raw->mark_dirty();
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
 					RawType* raw = compress_bucket(d_buckets.size() - 1);
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
 					raw->block_index = d_buckets.size() - 1;
+					raw->mark_dirty();
 				}
 			}
 
-- 
2.43.0


From b10d0bdda3db51aa845e36ea112d7d2bd00206e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 34/53] fix: cvector::shrink_to_fit() corrupts the list of
 decompressed chunks when an allocation fails

---
 stenos/cvector.hpp | 109 +++++++++++++++++++++++++--------------------
 1 file changed, 60 insertions(+), 49 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 8649fc1..287fcf5 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1592,68 +1592,79 @@ namespace stenos
 
 				const size_t max_buffers = 1;
 
-				for (auto it = d_contexts.begin(); it != d_contexts.end();) {
-					RawType* raw = *it++;
+				try {
+					while (d_contexts.size()) {
+						RawType* raw = d_contexts.front();
+
+						// Try to reuse the decompression context
+						if (raw->size > 0 && raw->size < elems_per_block) {
+							// Mandatory: reuse a non full decompression context (back context)
+							d_contexts.erase(raw);
+							new_contexts.push_back(raw);
+							continue;
+						}
+						else if (new_contexts.size() < max_buffers && !raw->dirty) {
+							// Reuse a non dirty decompression context
+							d_contexts.erase(raw);
+							new_contexts.push_back(raw);
+							if (raw->block_index != RawType::invalid_index)
+								d_buckets[raw->block_index].data.set(raw->buffer, Compressed);
+							raw->reset();
+							continue;
+						}
 
-					// Try to reuse the decompression context
-					if (raw->size > 0 && raw->size < elems_per_block) {
-						// Mandatory: reuse a non full decompression context (back context)
-						new_contexts.push_back(raw);
-						continue;
-					}
-					else if (new_contexts.size() < max_buffers && !raw->dirty) {
-						// Reuse a non dirty decompression context
-						new_contexts.push_back(raw);
+						// If the context is dirty, compress it
+						if (raw->dirty) {
+							// Find the corresponding PackBuffer, excluding front and back buckets
+							STENOS_ASSERT_DEBUG(raw->block_index != RawType::invalid_index, "raw block must belong to an existing bucket");
+							// Compress
+							size_t r = compress(raw->storage);
+							if (r != stenos_private_block_csize(raw->buffer)) {
+								// Free old buffer, alloc new one, update compressed size, might throw (fine)
+								char* buff = RebindAlloc<char>(*this).allocate(r);
+
+								if (raw->buffer)
+									RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
+								raw->buffer = buff;
+							}
+							memcpy(raw->buffer, compression_buffer(), r);
+						}
+
+						// Unlink this decompression context with its compressed buffer
+						d_contexts.erase(raw);
 						if (raw->block_index != RawType::invalid_index)
 							d_buckets[raw->block_index].data.set(raw->buffer, Compressed);
-						raw->reset();
-						continue;
-					}
 
-					// If the context is dirty, compress it
-					if (raw->dirty) {
-						// Find the corresponding PackBuffer, excluding front and back buckets
-						STENOS_ASSERT_DEBUG(raw->block_index != RawType::invalid_index, "raw block must belong to an existing bucket");
-						// Compress
-						size_t r = compress(raw->storage);
-						if (r != stenos_private_block_csize(raw->buffer)) {
-							// Free old buffer, alloc new one, update compressed size, might throw (fine)
-							char* buff = RebindAlloc<char>(*this).allocate(r);
-
-							if (raw->buffer)
-								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
-							raw->buffer = buff;
+						if (new_contexts.size() < max_buffers) {
+							// Add this decompression  context to the new ones
+							raw->reset();
+							new_contexts.push_back(raw);
+						}
+						else {
+							// Free decompression context
+							RebindAlloc<char> al(*this);
+							al.deallocate(reinterpret_cast<char*>(raw), sizeof(RawType));
 						}
-						memcpy(raw->buffer, compression_buffer(), r);
-					}
-
-					// Unlink this decompression context with its compressed buffer
-					if (raw->block_index != RawType::invalid_index)
-						d_buckets[raw->block_index].data.set(raw->buffer, Compressed);
-
-					if (new_contexts.size() < max_buffers) {
-						// Add this decompression  context to the new ones
-						raw->reset();
-						new_contexts.push_back(raw);
 					}
-					else {
-						// Free decompression context
-						RebindAlloc<char> al(*this);
-						al.deallocate(reinterpret_cast<char*>(raw), sizeof(RawType));
+				}
+				catch (...) {
+					// Keep the contexts already processed
+					while (new_contexts.size()) {
+						RawType* raw = new_contexts.front();
+						new_contexts.pop_front();
+						d_contexts.push_back(raw);
 					}
+					throw;
 				}
 
 				// Swap contexts
 				d_contexts.assign(std::move(new_contexts));
 
 				// Remove empty contexts
-				while (d_contexts.size() > 1) {
-					for (auto it = d_contexts.begin(); it != d_contexts.end(); ++it) {
-						if ((*it)->size == 0) {
-							erase_context(*it);
-							break;
-						}
-					}
+				for (auto it = d_contexts.begin(); it != d_contexts.end() && d_contexts.size() > 1;) {
+					RawType* raw = *it++;
+					if (raw->size == 0)
+						erase_context(raw);
 				}
 
 				// Shrink bucket vector
-- 
2.43.0


From daa40e83bdde00f681d8347c05407557e1fc26a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 35/53] fix: cvector steals chunks that are still used by a
 reference wrapper

---
 stenos/cvector.hpp | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 287fcf5..bfeb581 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1597,8 +1597,9 @@ namespace stenos
 						RawType* raw = d_contexts.front();
 
 						// Try to reuse the decompression context
-						if (raw->size > 0 && raw->size < elems_per_block) {
-							// Mandatory: reuse a non full decompression context (back context)
+						if ((raw->size > 0 && raw->size < elems_per_block) || is_pinned(raw)) {
+							// Mandatory: reuse a non full decompression context (back context),
+							// or a context used by a reference wrapper
 							d_contexts.erase(raw);
 							new_contexts.push_back(raw);
 							continue;
@@ -1678,6 +1679,11 @@ namespace stenos
 					return d_buckets[raw->block_index].ref_count.try_lock();
 				return true;
 			}
+			/// @brief Tells if a decompression context is used by at least one reference wrapper
+			STENOS_ALWAYS_INLINE bool is_pinned(RawType* raw) const noexcept
+			{
+				return raw->block_index != RawType::invalid_index && d_buckets[raw->block_index].ref_count.value() != 0;
+			}
 			/// @brief Unlock a decompression context
 			STENOS_ALWAYS_INLINE void unlock(RawType* raw) noexcept
 			{
@@ -1806,8 +1812,8 @@ namespace stenos
 				return found_raw;
 			}
 
-			/// @brief Compress bucket using its own context
-			auto compress_bucket(size_t index) -> RawType*
+			/// @brief Compress bucket using its own context, but keep the decompressed chunk
+			auto update_bucket(size_t index) -> RawType*
 			{
 				BucketType* bucket = &d_buckets[index];
 				RawType* decompressed = bucket->load_decompressed();
@@ -1821,8 +1827,15 @@ namespace stenos
 					decompressed->buffer = buff;
 				}
 				memcpy(decompressed->buffer, compression_buffer(), r);
+				decompressed->mark_not_dirty();
+				return decompressed;
+			}
 
-				bucket->data.set(decompressed->buffer, Compressed);
+			/// @brief Compress bucket using its own context
+			auto compress_bucket(size_t index) -> RawType*
+			{
+				RawType* decompressed = update_bucket(index);
+				d_buckets[index].data.set(decompressed->buffer, Compressed);
 				decompressed->reset();
 				return decompressed;
 			}
@@ -1839,7 +1852,8 @@ namespace stenos
 					raw->mark_dirty();
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
-					RawType* raw = compress_bucket(d_buckets.size() - 1);
+					// A chunk used by a reference wrapper cannot be stolen
+					RawType* raw = is_pinned(d_buckets.back().load_decompressed()) ? make_or_find_free_context() : compress_bucket(d_buckets.size() - 1);
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
 					raw->block_index = d_buckets.size() - 1;
@@ -2438,11 +2452,16 @@ namespace stenos
 			auto* bucket = &d_data->d_buckets[pos];
 			auto* buf = bucket->data.find_compressed();
 			if (!buf || (bucket->load_decompressed() && bucket->load_decompressed()->dirty)) {
-				// compress bucket
-				auto* raw = d_data->compress_bucket(pos);
+				if (d_data->is_pinned(bucket->load_decompressed()))
+					// compress bucket, but keep the chunk as it is used by a reference wrapper
+					d_data->update_bucket(pos);
+				else {
+					// compress bucket
+					auto* raw = d_data->compress_bucket(pos);
 
-				// erase decompression context if this is not the last one
-				d_data->erase_context(raw);
+					// erase decompression context if this is not the last one
+					d_data->erase_context(raw);
+				}
 			}
 			buf = bucket->data.find_compressed();
 			return { buf, stenos_private_block_csize(buf) };
-- 
2.43.0


From a8d572ac2bfa7c98020b49470985b86a90f9a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 36/53] fix: data race on decompressed chunks of cvector

---
 stenos/cvector.hpp | 53 +++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index bfeb581..a0f8499 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -461,8 +461,7 @@ namespace stenos
 			static constexpr size_t invalid_index = std::numeric_limits<size_t>::max();
 
 			unsigned size;					// size is used for front and back buffer
-			volatile unsigned dirty;			// dirty (modified) buffer, use volatile instead of atomic (slightly better performances,
-									// and works all the time since we have an aligned 32 bit variable).
+			std::atomic<unsigned> dirty;			// dirty (modified) buffer
 			size_t block_index;				// block index in list of blocks
 			char* buffer;					// compressed buffer
 			alignas(alignof(T)) char storage[storage_size]; // data storage, aligned on 16 bytes at least
@@ -477,11 +476,9 @@ namespace stenos
 				// while NOY being reused for another bucket since
 				// mark_dirty() is only called when the bucket is locked.
 
-				// if (!dirty.load(std::memory_order_relaxed))
-				//	dirty.store(1, std::memory_order_relaxed);
-				dirty = 1;
+				dirty.store(1, std::memory_order_relaxed);
 			}
-			STENOS_ALWAYS_INLINE void mark_not_dirty() noexcept { dirty = 0; }
+			STENOS_ALWAYS_INLINE void mark_not_dirty() noexcept { dirty.store(0, std::memory_order_relaxed); }
 
 			template<class CompressVec>
 			STENOS_ALWAYS_INLINE void mark_dirty(CompressVec* vec) noexcept
@@ -509,7 +506,7 @@ namespace stenos
 			void reset() noexcept
 			{
 				size = 0;
-				dirty = 0;
+				mark_not_dirty();
 				block_index = invalid_index;
 				buffer = nullptr;
 			}
@@ -627,8 +624,10 @@ namespace stenos
 		template<class T, unsigned block_size>
 		class TagPointer
 		{
-			volatile uintptr_t d_ptr = 0; // Not certain volatile is mandatory
-			STENOS_ALWAYS_INLINE uintptr_t load() const noexcept { return d_ptr; }
+			// Atomic, as a bucket can be decompressed by another thread
+			std::atomic<uintptr_t> d_ptr{ 0 };
+			STENOS_ALWAYS_INLINE uintptr_t load() const noexcept { return d_ptr.load(std::memory_order_acquire); }
+			STENOS_ALWAYS_INLINE void store(uintptr_t p) noexcept { d_ptr.store(p, std::memory_order_release); }
 
 		public:
 			constexpr TagPointer() = default;
@@ -636,15 +635,29 @@ namespace stenos
 			  : d_ptr((uintptr_t)p | type)
 			{
 			}
-			STENOS_ALWAYS_INLINE RawBuffer<T, block_size>* raw() const noexcept { return (d_ptr & Compressed) ? nullptr : reinterpret_cast<RawBuffer<T, block_size>*>(d_ptr); }
-			STENOS_ALWAYS_INLINE char* compressed() const noexcept { return (d_ptr & Compressed) ? reinterpret_cast<char*>(d_ptr & ~1ull) : nullptr; }
+			STENOS_ALWAYS_INLINE RawBuffer<T, block_size>* raw() const noexcept
+			{
+				auto ptr = load();
+				return (ptr & Compressed) ? nullptr : reinterpret_cast<RawBuffer<T, block_size>*>(ptr);
+			}
+			STENOS_ALWAYS_INLINE char* compressed() const noexcept
+			{
+				auto ptr = load();
+				return (ptr & Compressed) ? reinterpret_cast<char*>(ptr & ~1ull) : nullptr;
+			}
 			STENOS_ALWAYS_INLINE char* find_compressed() const noexcept
 			{
-				return d_ptr ? ((d_ptr & Compressed) ? reinterpret_cast<char*>(d_ptr & ~1ull) : reinterpret_cast<RawBuffer<T, block_size>*>(d_ptr)->buffer) : nullptr;
+				auto ptr = load();
+				return ptr ? ((ptr & Compressed) ? reinterpret_cast<char*>(ptr & ~1ull) : reinterpret_cast<RawBuffer<T, block_size>*>(ptr)->buffer) : nullptr;
 			}
-			STENOS_ALWAYS_INLINE void set(void* p, BufferType type) noexcept { d_ptr = (uintptr_t)p | type; }
-			STENOS_ALWAYS_INLINE void swap(TagPointer& other) noexcept { std::swap(d_ptr, other.d_ptr); }
-			STENOS_ALWAYS_INLINE operator bool() const noexcept { return d_ptr != 0; }
+			STENOS_ALWAYS_INLINE void set(void* p, BufferType type) noexcept { store((uintptr_t)p | type); }
+			STENOS_ALWAYS_INLINE void swap(TagPointer& other) noexcept
+			{
+				auto ptr = load();
+				store(other.load());
+				other.store(ptr);
+			}
+			STENOS_ALWAYS_INLINE operator bool() const noexcept { return load() != 0; }
 		};
 
 		/// @brief Compressed buffer class
@@ -701,7 +714,7 @@ namespace stenos
 		{
 			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
 			res->size = 0;
-			res->dirty = 0;
+			res->mark_not_dirty();
 			res->block_index = RawBuffer<T, block_size>::invalid_index;
 			res->buffer = nullptr;
 			res->left = res->right = nullptr;
@@ -1876,11 +1889,11 @@ namespace stenos
 					raw->block_index = index;
 
 					this->decompress(pack, raw->storage);
-					char* buffer = pack->data.find_compressed();
-					pack->data.set(raw, Raw);
-					raw->buffer = buffer;
-					raw->dirty = 0;
+					raw->buffer = pack->data.find_compressed();
+					raw->mark_not_dirty();
 					raw->size = block_size;
+					// publish the fully built chunk
+					pack->data.set(raw, Raw);
 					decompressed = raw;
 				}
 				return decompressed;
-- 
2.43.0


From 73658d4f9d277c6f6ca875d0a6d03226eeab2034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 37/53] fix: compilation of cvector::compression_ratio()

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a0f8499..181004d 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1590,7 +1590,7 @@ namespace stenos
 				decompressed_size *= block_size * sizeof(T);
 				size_t compress_size = 0;
 				for (size_t i = 0; i < d_buckets.size(); ++i)
-					if (d_buckets[i].buffer)
+					if (d_buckets[i].data.find_compressed())
 						compress_size += stenos_private_block_csize(d_buckets[i].data.find_compressed());
 				return (compress_size && decompressed_size) ? decompressed_size / static_cast<float>(compress_size) : 0.f;
 			}
-- 
2.43.0


From 5354f6b74aa7b438259d8bb70f914a207b391d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 38/53] fix: stenos::istreambuf_iterator move constructor and
 increment

---
 stenos/cvector.hpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 181004d..57fa978 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3490,7 +3490,7 @@ namespace stenos
 		}
 
 		istreambuf_iterator(istreambuf_iterator&& other) noexcept
-		  : d_in(&other.d_in)
+		  : d_in(other.d_in)
 		  , d_has_value(other.d_has_value)
 		{
 			if (d_has_value)
@@ -3539,16 +3539,11 @@ namespace stenos
 		void increment()
 		{
 			// skip to next input element
-			if (d_in) {
-				if (d_has_value) {
-					d_has_value = false;
-					value()->~T();
-				}
-				if (d_in->read(d_value, sizeof(d_value))) {
-					d_has_value = true;
-					return;
-				}
-				d_in = nullptr;
+			// (the current one might not have been read yet)
+			if (d_has_value || read()) {
+				d_has_value = false;
+				value()->~T();
+				read();
 			}
 		}
 
-- 
2.43.0


From 5a051643a577ab014854cc3c2296ea9375d32d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 39/53] fix: compressed bytes depended on the thread count and
 the destination size

---
 stenos/internal/stenos.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 45e7a0a..c80d739 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -434,6 +434,11 @@ namespace stenos
 		// Check SSE4.1 support
 		static const bool no_sse = !stenos::cpu_features().HAS_SSE41;
 
+		// The available room influences the coding choices: never use more than the maximum output size,
+		// or the compressed bytes would depend on the destination size and on the number of threads.
+		if (dst_size > bytes + 4)
+			dst_size = bytes + 4;
+
 		size_t result = 0;
 		uint8_t* dst = (uint8_t*)_dst;
 		uint8_t* dst_end = dst + dst_size;
-- 
2.43.0


From c0619f1cd31738981b1de7c2accbe0ebb694f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 40/53] fix: SSE2 inverse transposition of 12 bytes elements

---
 stenos/internal/shuffle-sse2.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/shuffle-sse2.cpp b/stenos/internal/shuffle-sse2.cpp
index 9644f40..ad78044 100644
--- a/stenos/internal/shuffle-sse2.cpp
+++ b/stenos/internal/shuffle-sse2.cpp
@@ -363,12 +363,6 @@ static void unshuffle8_sse2(uint8_t* const dest, const uint8_t* const src, const
 	}
 }
 
-template<class... Args>
-STENOS_ALWAYS_INLINE __m128i setr_epi8(Args... values) noexcept
-{
-	return _mm_setr_epi8(std::forward<char>(values)...);
-}
-
 /* Routine optimized for unshuffling a buffer for a type size of 12 bytes. */
 /* Based on the 16-byte implementation */
 static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, const int32_t vectorizable_elements, const int32_t total_elements)
@@ -378,8 +372,6 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 	int j;
 	__m128i xmm1[16], xmm2[16];
 
-	__m128i mask = setr_epi8(0x0, 0x0, 0x0, 0x0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff);
-
 	for (i = 0; i < vectorizable_elements; i += sizeof(__m128i)) {
 		/* Load 16 elements (256 bytes) into 16 XMM registers. */
 		const uint8_t* const src_for_ith_element = src + i;
@@ -431,7 +423,10 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 		_mm_storeu_si128((__m128i*)(dest + (i * bytesoftype) + (12 * 12)), xmm1[3]);
 		_mm_storeu_si128((__m128i*)(dest + (i * bytesoftype) + (13 * 12)), xmm1[11]);
 		_mm_storeu_si128((__m128i*)(dest + (i * bytesoftype) + (14 * 12)), xmm1[7]);
-		_mm_maskmoveu_si128(xmm1[15], mask, (char*)(dest + (i * bytesoftype) + (15 * 12)));
+		/* Last element: store exactly 12 bytes */
+		_mm_storel_epi64((__m128i*)(dest + (i * bytesoftype) + (15 * 12)), xmm1[15]);
+		const int last = _mm_cvtsi128_si32(_mm_srli_si128(xmm1[15], 8));
+		memcpy(dest + (i * bytesoftype) + (15 * 12) + 8, &last, 4);
 	}
 }
 
-- 
2.43.0


From 238cc48855d076b11b16ba28445edde2ab3f303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 41/53] fix: superblocks started after the time limit are
 stored

---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index c80d739..e300bb3 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -450,6 +450,10 @@ namespace stenos
 			// We need at least 4 bytes to write the superblock header
 			return STENOS_ERROR_DST_OVERFLOW;
 
+		if STENOS_UNLIKELY (time_limited && ctx->t.timer.tock() >= ctx->t.nanoseconds)
+			// No more time: finish with memcpy
+			ctx->t.finish_memcpy.store(true);
+
 		if STENOS_UNLIKELY (bytes == 0 || ctx->t.finish_memcpy.load(std::memory_order_relaxed) || (ctx->level == 0 && !time_limited))
 			// Empty input or too slow compression: direct copy
 			goto MEMCPY;
-- 
2.43.0


From 8c3887b5aca23cb8a3a5e018638c66da4332dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 42/53] fix: one allocation failure disabled zstd for the rest
 of a thread's life

---
 stenos/internal/zstd_wrapper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/internal/zstd_wrapper.h b/stenos/internal/zstd_wrapper.h
index 54f8d6a..7d450e9 100644
--- a/stenos/internal/zstd_wrapper.h
+++ b/stenos/internal/zstd_wrapper.h
@@ -73,6 +73,9 @@ namespace stenos
 			}
 		};
 		thread_local ZSTDContext ctx;
+		if (!ctx.ctx)
+			// A previous creation failed: try again
+			ctx.ctx = ZSTD_createCCtx();
 		if (!ctx.ctx)
 			return STENOS_ERROR_ALLOC;
 
-- 
2.43.0


From 933aff042aa38373173c1c8ec4c9e0c7e1bac402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 43/53] fix: assignment between element references of cvector
 did not compile

RefWrapper has a move assignment operator, hence its copy assignment was implicitly deleted: std::copy within compressed vectors, or a plain *it1 = *it2, was rejected.
---
 stenos/cvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 57fa978..023db9a 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -959,6 +959,8 @@ namespace stenos
 				}
 				return *this;
 			}
+			// Otherwise implicitly deleted, as there is a move assignment operator
+			STENOS_ALWAYS_INLINE auto operator=(const RefWrapper& other) -> RefWrapper& { return (*this) = static_cast<const base_type&>(other); }
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-- 
2.43.0


From 964a76485b6236137dad70a51f6608f04d9f61de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 44/53] fix: reverse iterators of cvector returned dangling
 references

---
 stenos/cvector.hpp | 119 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 116 insertions(+), 3 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 023db9a..95892bf 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1102,7 +1102,7 @@ namespace stenos
 		public:
 			using T = typename Compressed::value_type;
 			using value_type = ValueWrapper<T>;
-			using reference = ref_type;
+			using reference = const_ref_type&;
 			using const_reference = const_ref_type&;
 			using pointer = const T*;
 			using const_pointer = const T*;
@@ -1342,6 +1342,119 @@ namespace stenos
 			return a.abspos >= b.abspos;
 		}
 
+		/// @brief Reverse iterator type for cvector.
+		/// std::reverse_iterator cannot be used, as it dereferences a temporary
+		/// iterator while references live within the iterators they come from.
+		template<class Iter>
+		class CompressedReverseIter
+		{
+			Iter it; // designates the same element as this iterator, one before base()
+
+		public:
+			using iterator_type = Iter;
+			using value_type = typename Iter::value_type;
+			using reference = decltype(*std::declval<const Iter&>());
+			using pointer = decltype(std::declval<const Iter&>().operator->());
+			using difference_type = typename Iter::difference_type;
+			using iterator_category = std::random_access_iterator_tag;
+
+			STENOS_ALWAYS_INLINE CompressedReverseIter() noexcept {}
+			STENOS_ALWAYS_INLINE explicit CompressedReverseIter(const Iter& base) noexcept
+			  : it(base - 1)
+			{
+			}
+			template<class Other>
+			STENOS_ALWAYS_INLINE CompressedReverseIter(const CompressedReverseIter<Other>& other) noexcept
+			  : it(other.base() - 1)
+			{
+			}
+
+			STENOS_ALWAYS_INLINE auto base() const noexcept -> Iter { return it + 1; }
+			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return *it; }
+			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> pointer { return it.operator->(); }
+			STENOS_ALWAYS_INLINE auto operator[](difference_type diff) const noexcept { return it[-diff]; }
+			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedReverseIter&
+			{
+				--it;
+				return *this;
+			}
+			STENOS_ALWAYS_INLINE auto operator++(int) noexcept -> CompressedReverseIter
+			{
+				CompressedReverseIter tmp = *this;
+				--it;
+				return tmp;
+			}
+			STENOS_ALWAYS_INLINE auto operator--() noexcept -> CompressedReverseIter&
+			{
+				++it;
+				return *this;
+			}
+			STENOS_ALWAYS_INLINE auto operator--(int) noexcept -> CompressedReverseIter
+			{
+				CompressedReverseIter tmp = *this;
+				++it;
+				return tmp;
+			}
+			STENOS_ALWAYS_INLINE auto operator+=(difference_type diff) noexcept -> CompressedReverseIter&
+			{
+				it -= diff;
+				return *this;
+			}
+			STENOS_ALWAYS_INLINE auto operator-=(difference_type diff) noexcept -> CompressedReverseIter&
+			{
+				it += diff;
+				return *this;
+			}
+			STENOS_ALWAYS_INLINE auto operator+(difference_type diff) const noexcept -> CompressedReverseIter
+			{
+				CompressedReverseIter tmp = *this;
+				tmp += diff;
+				return tmp;
+			}
+			STENOS_ALWAYS_INLINE auto operator-(difference_type diff) const noexcept -> CompressedReverseIter
+			{
+				CompressedReverseIter tmp = *this;
+				tmp -= diff;
+				return tmp;
+			}
+		};
+
+		template<class A, class B>
+		STENOS_ALWAYS_INLINE auto operator-(const CompressedReverseIter<A>& a, const CompressedReverseIter<B>& b) noexcept -> typename A::difference_type
+		{
+			return b.base() - a.base();
+		}
+		template<class A, class B>
+		STENOS_ALWAYS_INLINE bool operator==(const CompressedReverseIter<A>& a, const CompressedReverseIter<B>& b) noexcept
+		{
+			return a.base() == b.base();
+		}
+		template<class A, class B>
+		STENOS_ALWAYS_INLINE bool operator!=(const CompressedReverseIter<A>& a, const CompressedReverseIter<B>& b) noexcept
+		{
+			return a.base() != b.base();
+		}
+		template<class A, class B>
+		STENOS_ALWAYS_INLINE bool operator<(const CompressedReverseIter<A>& a, const CompressedReverseIter<B>& b) noexcept
+		{
+			return b.base() < a.base();
+		}
+		template<class A, class B>
+		STENOS_ALWAYS_INLINE bool operator>(const CompressedReverseIter<A>& a, const CompressedReverseIter<B>& b) noexcept
+		{
+			return b.base() > a.base();
+		}
+		template<class A, class B>
+		STENOS_ALWAYS_INLINE bool operator<=(const CompressedReverseIter<A>& a, const CompressedReverseIter<B>& b) noexcept
+		{
+			return b.base() <= a.base();
+		}
+		template<class A, class B>
+		STENOS_ALWAYS_INLINE bool operator>=(const CompressedReverseIter<A>& a, const CompressedReverseIter<B>& b) noexcept
+		{
+			return b.base() >= a.base();
+		}
+
 		template<unsigned block_bytes>
 		static STENOS_ALWAYS_INLINE void* get_compression_buffer() noexcept
 		{
@@ -2495,8 +2608,8 @@ namespace stenos
 		using allocator_type = Allocator;
 		using iterator = typename internal_type::iterator;
 		using const_iterator = typename internal_type::const_iterator;
-		using reverse_iterator = std::reverse_iterator<iterator>;
-		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
+		using reverse_iterator = detail::CompressedReverseIter<iterator>;
+		using const_reverse_iterator = detail::CompressedReverseIter<const_iterator>;
 		using lock_type = detail::SharedSpinner;
 
 		// Value type returned by at() and operator[]
-- 
2.43.0


From 81cfc63efd68c1a51ba352115a2d37568742890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 45/53] fix: for_each() gave copies of the elements to functors
 returning a value

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 95892bf..c1b5e72 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -409,7 +409,7 @@ namespace stenos
 		struct ResultOf
 		{
 			template<class F, class... Args>
-			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args... args)
+			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args&&... args)
 			{
 				return std::forward<F>(f)(std::forward<Args>(args)...);
 			}
-- 
2.43.0


From 242905cad5eeb575c061f74ea5a8128a79370e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 46/53] fix: assign() and insert() of a repeated value
 terminated when its copy throws

---
 stenos/cvector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index c1b5e72..ae1e9f3 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -235,7 +235,7 @@ namespace stenos
 		  : pos(_pos)
 		{
 		}
-		cvalue_iterator(size_type _pos, const T& _value) noexcept
+		cvalue_iterator(size_type _pos, const T& _value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 		  : pos(_pos)
 		  , value(_value)
 		{
@@ -248,7 +248,7 @@ namespace stenos
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) noexcept(std::is_nothrow_copy_constructible<T>::value) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -260,7 +260,7 @@ namespace stenos
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) noexcept(std::is_nothrow_copy_constructible<T>::value) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -285,13 +285,13 @@ namespace stenos
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible<T>::value) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible<T>::value) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From 0ec50dd7617e0ea23716faeef6182c289d450b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 47/53] fix: cvector::deserialize(stream) leaked a buffer when
 the stream throws

---
 stenos/cvector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index ae1e9f3..d924e95 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3511,13 +3511,13 @@ namespace stenos
 			iss.seekg(-4, std::ios::cur);
 			// might throw, fine
 			char* data = al.allocate(bsize);
-			iss.read(data, bsize);
-			if STENOS_UNLIKELY (!iss) {
-				al.deallocate(data, bsize);
-				return STENOS_ERROR_SRC_OVERFLOW;
-			}
-
 			try {
+				// might throw depending on the stream exceptions mask
+				iss.read(data, bsize);
+				if STENOS_UNLIKELY (!iss) {
+					al.deallocate(data, bsize);
+					return STENOS_ERROR_SRC_OVERFLOW;
+				}
 				d_data->d_buckets.push_back(bucket_type());
 			}
 			catch (...) {
-- 
2.43.0


From 15af534c64afa05265be4977316b15d363946b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 48/53] fix: std::swap() on two cvector references lost one of
 the elements

---
 stenos/cvector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index d924e95..f06cbfc 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3392,6 +3392,9 @@ namespace std
 	{
 		return stenos_detail::MoveObject<typename Compress::value_type>::apply(other.move());
 	}*/
+
+	// Make std::swap(ref, ref) exchange the elements. The generic version, using a copy of the reference, loses one of them.
+	using stenos::detail::swap;
 }
 
 #include <iostream>
-- 
2.43.0


From cabf1a0876c6bb8b246ed458b9921060df0e00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 49/53] fix: assignment between references of two cvectors read
 outside the bucket list of the destination

---
 stenos/cvector.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index f06cbfc..c21140a 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -841,6 +841,9 @@ namespace stenos
 				return decompressed;
 			}
 
+			// Index of the bucket of other that must not be recycled, only meaningful if both references belong to the same container
+			STENOS_ALWAYS_INLINE auto exclude_for(const ConstRefWrapper& other) const noexcept -> size_t { return other.c == c ? other.bucket : static_cast<size_t>(-1); }
+
 			STENOS_ALWAYS_INLINE bool move_inside_block(std::ptrdiff_t val)
 			{
 				// Increment position within a block, returns true if we stay on the block
@@ -952,8 +955,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto operator=(const base_type& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_if_needed(this->exclude_for(other));
+					auto raw_other = other.decompress_if_needed(other.exclude_for(*this));
 					raw_this->mark_dirty();
 					raw_this->at(this->bpos) = raw_other->at(other.bpos);
 				}
@@ -964,8 +967,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_if_needed(this->exclude_for(other));
+					auto raw_other = other.decompress_if_needed(other.exclude_for(*this));
 					if (!std::is_trivially_move_assignable<T>::value)
 						raw_other->mark_dirty();
 					raw_this->mark_dirty();
@@ -996,8 +999,8 @@ namespace stenos
 			STENOS_ALWAYS_INLINE void swap(RefWrapper& other)
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-					auto raw_this = this->decompress_if_needed(other.bucket);
-					auto raw_other = other.decompress_if_needed(this->bucket);
+					auto raw_this = this->decompress_if_needed(this->exclude_for(other));
+					auto raw_other = other.decompress_if_needed(other.exclude_for(*this));
 					raw_this->mark_dirty();
 					raw_other->mark_dirty();
 					std::swap(raw_this->at(this->bpos), raw_other->at(other.bpos));
-- 
2.43.0


From 442256b67391db239f4c91bcce212b318b4a3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 50/53] fix: compression from destructors run after the thread
 level buffers are released

Static and thread_local objects may compress or decompress in their destructors
after the thread_local zstd context and working buffer of their thread were
destroyed: both were then used after free.  They are now trivially destructible
and released by a separate guard.
---
 stenos/internal/block_compress.h | 74 +++++++++++++++++++++++---------
 stenos/internal/zstd_wrapper.h   | 34 ++++++++++-----
 2 files changed, 77 insertions(+), 31 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 1c20607..a2fcc27 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -907,42 +907,74 @@ namespace stenos
 
 	} // end namespace detail
 
-	static inline void* make_compression_buffer(size_t size) noexcept
+	/// @brief Working buffer for block compression/decompression aligned on 16 bytes.
+	/// Reuse a thread local buffer.
+	class CompressionBuffer
 	{
-		// Create buffer for block compression aligned on 16 bytes
-		struct CompressedBuffer
+		// The thread local buffer is trivially destructible and released by a separate guard, as it might still be
+		// used by the destructor of a static or thread local object after the destruction of the guard.
+		struct Buffer
 		{
 			void* buffer;
 			size_t size;
-			CompressedBuffer()
-			  : buffer(nullptr)
-			  , size(0)
-			{
-			}
-			~CompressedBuffer()
+			bool released; // Guard already destroyed
+
+			void release() noexcept
 			{
 				if (buffer)
 					stenos::aligned_free(buffer);
+				buffer = nullptr;
+				size = 0;
+			}
+		};
+		struct Guard
+		{
+			Buffer& b;
+			~Guard()
+			{
+				b.release();
+				b.released = true;
 			}
 		};
+
+		static inline Buffer& local() noexcept
+		{
 #ifdef __clang__
 #pragma clang diagnostic push
 #pragma clang diagnostic ignored "-Wexit-time-destructors"
 #endif
-		// Try to reuse thread local buffer if possible
-		static thread_local CompressedBuffer buf;
+			static thread_local Buffer buf{ nullptr, 0, false };
+			static thread_local Guard guard{ buf };
+			(void)&guard;
 #ifdef __clang__
 #pragma clang diagnostic pop
 #endif
+			return buf;
+		}
+
+		Buffer& buf;
 
-		if (buf.size < size) {
-			if (buf.buffer)
-				stenos::aligned_free(buf.buffer);
-			buf.buffer = stenos::aligned_malloc(size, 16);
-			buf.size = buf.buffer ? size : 0;
+	public:
+		CompressionBuffer(size_t size) noexcept
+		  : buf(local())
+		{
+			if (buf.size < size) {
+				buf.release();
+				buf.buffer = stenos::aligned_malloc(size, 16);
+				buf.size = buf.buffer ? size : 0;
+			}
 		}
-		return buf.buffer;
-	}
+		~CompressionBuffer() noexcept
+		{
+			if STENOS_UNLIKELY (buf.released)
+				// No one will release it afterward
+				buf.release();
+		}
+		CompressionBuffer(const CompressionBuffer&) = delete;
+		CompressionBuffer& operator=(const CompressionBuffer&) = delete;
+
+		void* get() const noexcept { return buf.buffer; }
+	};
 
 	static inline size_t block_compress_partial(const void* STENOS_RESTRICT __src,
 						    size_t bytesoftype,
@@ -1134,7 +1166,8 @@ namespace stenos
 			clevel = FindCLevel(t.total_bytes, t.nanoseconds);
 		}
 
-		void* buff_src = make_compression_buffer(detail::compression_buffer_size(bytesoftype));
+		CompressionBuffer compression_buffer(detail::compression_buffer_size(bytesoftype));
+		void* buff_src = compression_buffer.get();
 		if STENOS_UNLIKELY (!buff_src)
 			return STENOS_ERROR_ALLOC;
 
@@ -2113,7 +2146,8 @@ namespace stenos
 			return STENOS_ERROR_SRC_OVERFLOW;
 
 		// We need a buffer for unshuffle
-		uint8_t* buf = (uint8_t*)make_compression_buffer(block_size);
+		CompressionBuffer compression_buffer(block_size);
+		uint8_t* buf = (uint8_t*)compression_buffer.get();
 		if STENOS_UNLIKELY (!buf)
 			return STENOS_ERROR_ALLOC;
 
diff --git a/stenos/internal/zstd_wrapper.h b/stenos/internal/zstd_wrapper.h
index 7d450e9..f3cc5f9 100644
--- a/stenos/internal/zstd_wrapper.h
+++ b/stenos/internal/zstd_wrapper.h
@@ -58,23 +58,29 @@ namespace stenos
 	// ZSTD compression with optional dictionary
 	static STENOS_ALWAYS_INLINE size_t zstd_compress_with_context(void* dst, size_t dstCapacity, const void* src, size_t srcSize, int level, ZSTD_CDict* dict = nullptr) noexcept
 	{
-		// Compress by reusing a thread local ZSTD_CCtx
+		// Compress by reusing a thread local ZSTD_CCtx.
+		// The context is trivially destructible and released by a separate guard, as this function might still be
+		// called by the destructor of a static or thread local object after the destruction of the guard.
 		struct ZSTDContext
 		{
-			ZSTD_CCtx* ctx{ nullptr };
-			ZSTDContext()
-			  : ctx(ZSTD_createCCtx())
-			{
-			}
-			~ZSTDContext()
+			ZSTD_CCtx* ctx;
+			bool released; // Guard already destroyed
+		};
+		struct ZSTDGuard
+		{
+			ZSTDContext& c;
+			~ZSTDGuard()
 			{
-				if (ctx)
-					ZSTD_freeCCtx(ctx);
+				ZSTD_freeCCtx(c.ctx);
+				c.ctx = nullptr;
+				c.released = true;
 			}
 		};
-		thread_local ZSTDContext ctx;
+		static thread_local ZSTDContext ctx{ nullptr, false };
+		static thread_local ZSTDGuard guard{ ctx };
+		(void)&guard;
 		if (!ctx.ctx)
-			// A previous creation failed: try again
+			// First use, or a previous creation failed
 			ctx.ctx = ZSTD_createCCtx();
 		if (!ctx.ctx)
 			return STENOS_ERROR_ALLOC;
@@ -85,6 +91,12 @@ namespace stenos
 		else
 			r = ZSTD_compressCCtx(ctx.ctx, dst, dstCapacity, src, srcSize, zstd_from_reduced_level(level));
 
+		if STENOS_UNLIKELY (ctx.released) {
+			// No one will release it afterward
+			ZSTD_freeCCtx(ctx.ctx);
+			ctx.ctx = nullptr;
+		}
+
 		if (ZSTD_getErrorCode(r) == ZSTD_error_dstSize_tooSmall)
 			return STENOS_ERROR_DST_OVERFLOW;
 		if (ZSTD_isError(r))
-- 
2.43.0


From 64d7bc09e34955829c356607fb98e3c747db9c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 51/53] fix: use of the library from static constructors and
 destructors

With the static library, the thread pool pointer and the shuffle implementation
could still be null when a static object of another translation unit compressed
or decompressed in its constructor, and a multithreaded call within a static
destructor could wait forever for a pool already destroyed.
---
 stenos/internal/shuffle.cpp | 12 ++++++---
 stenos/internal/stenos.cpp  | 52 +++++++++++++++++++++++++++++++------
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/stenos/internal/shuffle.cpp b/stenos/internal/shuffle.cpp
index d9eae49..745357d 100644
--- a/stenos/internal/shuffle.cpp
+++ b/stenos/internal/shuffle.cpp
@@ -74,8 +74,12 @@ namespace stenos
 	}
 
 	/*  The dynamically-chosen shuffle/unshuffle implementation.
-	    This is only safe to use once `implementation_initialized` is set. */
-	static shuffle_implementation_t host_implementation = get_shuffle_implementation();
+	    Selected at first use, which might be within the initialization of a static object. */
+	static inline const shuffle_implementation_t& host_implementation(void) noexcept
+	{
+		static const shuffle_implementation_t impl = get_shuffle_implementation();
+		return impl;
+	}
 
 	/*  Shuffle a block by dynamically dispatching to the appropriate
 	    hardware-accelerated routine at run-time. */
@@ -86,7 +90,7 @@ namespace stenos
 		if (bytesoftype == 1)
 			memcpy((void*)_dest, _src, blocksize);
 		else
-			(host_implementation.shuffle)((int32_t)bytesoftype, (int32_t)blocksize, _src, _dest);
+			(host_implementation().shuffle)((int32_t)bytesoftype, (int32_t)blocksize, _src, _dest);
 	}
 
 	/*  Unshuffle a block by dynamically dispatching to the appropriate
@@ -98,7 +102,7 @@ namespace stenos
 		if (bytesoftype == 1)
 			memcpy((void*)_dest, _src, blocksize);
 		else
-			(host_implementation.unshuffle)((int32_t)bytesoftype, (int32_t)blocksize, _src, _dest);
+			(host_implementation().unshuffle)((int32_t)bytesoftype, (int32_t)blocksize, _src, _dest);
 	}
 
 }
diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index e300bb3..9ae1808 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -779,16 +779,52 @@ namespace stenos
 		return dsize;
 	}
 
-	static inline stenos::tiny_pool& get_pool()
+	// Global thread pool used for multithreaded compression/decompression.
+	// The pool is always accessed through get_pool(), as its first use might be within the initialization
+	// of another static object. Tasks are executed directly if pushed after its destruction (program exit).
+	struct GlobalPool
 	{
-		// Create static thread pool
-		static stenos::tiny_pool pool(std::thread::hardware_concurrency() * 2u);
-		return pool;
-	}
+		static std::atomic<bool>& finished() noexcept
+		{
+			static std::atomic<bool> value{ false };
+			return value;
+		}
 
-	// Global thread pool used for multithreaded compression/decompression.
-	// Make sure that threads are created at program initialization.
-	static stenos::tiny_pool* pool = &get_pool();
+		struct Holder
+		{
+			stenos::tiny_pool pool{ std::thread::hardware_concurrency() * 2u };
+			~Holder() noexcept { finished().store(true); }
+		};
+
+		static inline stenos::tiny_pool& get_pool()
+		{
+			// Create static thread pool
+			static Holder holder;
+			return holder.pool;
+		}
+
+		// Make sure that threads are created at program initialization.
+		GlobalPool() { get_pool(); }
+
+		GlobalPool* operator->() noexcept { return this; }
+
+		template<class U>
+		bool push(U&& u)
+		{
+			if STENOS_UNLIKELY (finished().load()) {
+				u();
+				return true;
+			}
+			return get_pool().push(std::forward<U>(u));
+		}
+
+		void wait()
+		{
+			if STENOS_LIKELY (!finished().load())
+				get_pool().wait();
+		}
+	};
+	static GlobalPool pool;
 
 }
 
-- 
2.43.0


From 218cbfbea8f4b2535fc6e17d2b7823d269ba4e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 52/53] fix: rows of the input buffer are read through a type
 without alignment requirement

---
 stenos/internal/block_compress.h | 34 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index a2fcc27..db3368a 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -85,6 +85,12 @@ namespace stenos
 			uint64_t u64[2];
 		};
 
+		// Block of 16 bytes read from an input buffer, without alignment requirement
+		struct row16
+		{
+			char i8[16];
+		};
+
 	}
 
 	// Check result for error
@@ -222,7 +228,11 @@ namespace stenos
 
 		static STENOS_ALWAYS_INLINE __m128i from_vector16(const vector16& v) noexcept
 		{
-			// For reading only, we consider that v is not guaranteed to be aligned
+			return _mm_loadu_si128((const __m128i*)&v);
+		}
+		static STENOS_ALWAYS_INLINE __m128i from_vector16(const row16& v) noexcept
+		{
+			// For reading only, v is not guaranteed to be aligned
 			return _mm_loadu_si128((const __m128i*)&v);
 		}
 		static STENOS_ALWAYS_INLINE void to_vector16(vector16& v, const __m128i& sse) noexcept
@@ -282,7 +292,7 @@ namespace stenos
 
 		// Write delta rle encoded row (compute_rle_row must be called before)
 		template<bool First>
-		static STENOS_ALWAYS_INLINE uint8_t* write_delta_rle(PackBits* p, __m128i mask, uint8_t* STENOS_RESTRICT dst, uint32_t i, const vector16* STENOS_RESTRICT src) noexcept
+		static STENOS_ALWAYS_INLINE uint8_t* write_delta_rle(PackBits* p, __m128i mask, uint8_t* STENOS_RESTRICT dst, uint32_t i, const row16* STENOS_RESTRICT src) noexcept
 		{
 			__m128i row = from_vector16(src[i]);
 			__m128i prev = _mm_slli_si128(row, 1);
@@ -383,7 +393,7 @@ namespace stenos
 
 		// Process block of 256 elements and find the best compression method for each row of 16 elements: bit packing, delta coding or rle.
 		static STENOS_ALWAYS_INLINE uint32_t
-		find_pack_bits_params(const vector16* STENOS_RESTRICT src, __m128i* STENOS_RESTRICT trs, uint8_t first, PackBits* STENOS_RESTRICT pack, int methods) noexcept
+		find_pack_bits_params(const row16* STENOS_RESTRICT src, __m128i* STENOS_RESTRICT trs, uint8_t first, PackBits* STENOS_RESTRICT pack, int methods) noexcept
 		{
 			const bool has_rle = methods & __STENOS_COMP_RLE;
 
@@ -603,7 +613,7 @@ namespace stenos
 
 #if defined(__BMI2__) && defined(STENOS_ARCH_64)
 		template<bool First>
-		static STENOS_ALWAYS_INLINE uint8_t* write_line_bmi2(const vector16* STENOS_RESTRICT src,
+		static STENOS_ALWAYS_INLINE uint8_t* write_line_bmi2(const row16* STENOS_RESTRICT src,
 								     __m128i mask,
 								     uint32_t i,
 								     uint8_t* STENOS_RESTRICT dst,
@@ -625,7 +635,7 @@ namespace stenos
 		}
 		template<bool First>
 		static STENOS_ALWAYS_INLINE uint8_t* write_line_for_type_bmi2(uint8_t type,
-									      const vector16* STENOS_RESTRICT src,
+									      const row16* STENOS_RESTRICT src,
 									      __m128i mask,
 									      uint32_t i,
 									      uint8_t* STENOS_RESTRICT dst,
@@ -646,7 +656,7 @@ namespace stenos
 #endif
 
 		template<bool First>
-		static STENOS_ALWAYS_INLINE uint8_t* write_line(const vector16* STENOS_RESTRICT src, __m128i mask, uint32_t i, uint8_t* STENOS_RESTRICT dst, PackBits* STENOS_RESTRICT pack) noexcept
+		static STENOS_ALWAYS_INLINE uint8_t* write_line(const row16* STENOS_RESTRICT src, __m128i mask, uint32_t i, uint8_t* STENOS_RESTRICT dst, PackBits* STENOS_RESTRICT pack) noexcept
 		{
 			if (pack->_bits.u8[i]) {
 				// type 0 and 1
@@ -664,7 +674,7 @@ namespace stenos
 		}
 		template<bool First>
 		static STENOS_ALWAYS_INLINE uint8_t* write_line_for_type(uint8_t type,
-									 const vector16* STENOS_RESTRICT src,
+									 const row16* STENOS_RESTRICT src,
 									 __m128i mask,
 									 uint32_t i,
 									 uint8_t* STENOS_RESTRICT dst,
@@ -683,7 +693,7 @@ namespace stenos
 			}
 		}
 
-		static inline uint8_t* encode_lines(const vector16* STENOS_RESTRICT src, uint8_t first, PackBits* STENOS_RESTRICT pack, uint8_t* STENOS_RESTRICT dst, unsigned lines) noexcept
+		static inline uint8_t* encode_lines(const row16* STENOS_RESTRICT src, uint8_t first, PackBits* STENOS_RESTRICT pack, uint8_t* STENOS_RESTRICT dst, unsigned lines) noexcept
 		{
 			// static const uint8_t header_0[2][9] = {
 			//	{ 0, 1, 2, 3, 4, 5, 6, 15, 15 }, { 8, 9, 10, 11, 12, 13, 14, 15, 15 } // 15 is for 8 bits
@@ -736,7 +746,7 @@ namespace stenos
 			return dst;
 		}
 
-		static STENOS_ALWAYS_INLINE uint8_t* encode16x16_generic(const vector16* STENOS_RESTRICT src, uint8_t first, PackBits* STENOS_RESTRICT pack, uint8_t* STENOS_RESTRICT dst) noexcept
+		static STENOS_ALWAYS_INLINE uint8_t* encode16x16_generic(const row16* STENOS_RESTRICT src, uint8_t first, PackBits* STENOS_RESTRICT pack, uint8_t* STENOS_RESTRICT dst) noexcept
 		{
 			// Note: this function works if (end -dst) > compress_size-16
 
@@ -902,7 +912,7 @@ namespace stenos
 		static STENOS_ALWAYS_INLINE uint32_t compute_block_generic(BlockEncoder* encoder, const void* src, char first, uint32_t index, int methods, __m128i* tr) noexcept
 		{
 			transpose_16x16(reinterpret_cast<const __m128i*>(src), tr);
-			return find_pack_bits_params((const vector16*)src, tr, static_cast<uint8_t>(first), encoder->packs + index, methods);
+			return find_pack_bits_params((const row16*)src, tr, static_cast<uint8_t>(first), encoder->packs + index, methods);
 		}
 
 	} // end namespace detail
@@ -1026,7 +1036,7 @@ namespace stenos
 					if STENOS_UNLIKELY (dst + size + 8 > dst_end)
 						return STENOS_ERROR_DST_OVERFLOW;
 
-					dst = detail::encode_lines(encoder->arrays[i], static_cast<uint8_t>(encoder->firsts[i]), encoder->packs + i, dst, (unsigned)lines);
+					dst = detail::encode_lines((const detail::row16*)encoder->arrays[i], static_cast<uint8_t>(encoder->firsts[i]), encoder->packs + i, dst, (unsigned)lines);
 				}
 				// store header value
 				if (offset == 0)
@@ -1273,7 +1283,7 @@ namespace stenos
 					// Add at least 16 bytes to take into account RLE writing that might write 15 bytes beyong dst
 					if STENOS_UNLIKELY (dst + encoder.packs[i].size + 16 > dst_end)
 						return STENOS_ERROR_DST_OVERFLOW;
-					dst = detail::encode16x16_generic((const detail::vector16*)input_tr, static_cast<uint8_t>(encoder.firsts[i]), encoder.packs + i, dst);
+					dst = detail::encode16x16_generic((const detail::row16*)input_tr, static_cast<uint8_t>(encoder.firsts[i]), encoder.packs + i, dst);
 				}
 
 				// store header value
-- 
2.43.0


From ba7fa87e807f813c4f9b5352d507c074e80b2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 53/53] fix: infinite rates were converted to integer in time
 limited compression

---
 stenos/internal/stenos.cpp     | 2 +-
 stenos/internal/zstd_wrapper.h | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 9ae1808..9b28a30 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -596,7 +596,7 @@ namespace stenos
 
 				zstd_level = 0;
 				if (global_block_speed > target_speed && current_block_speed > target_speed) {
-					size_t zstd_rate = (size_t)((current_block_speed * target_speed) / (current_block_speed - target_speed));
+					size_t zstd_rate = detail::to_rate((current_block_speed * target_speed) / (current_block_speed - target_speed));
 					zstd_level = detail::clevel_for_remaining(ctx->t, processed, &zstd_rate, 1);
 				}
 
diff --git a/stenos/internal/zstd_wrapper.h b/stenos/internal/zstd_wrapper.h
index f3cc5f9..2323a15 100644
--- a/stenos/internal/zstd_wrapper.h
+++ b/stenos/internal/zstd_wrapper.h
@@ -28,6 +28,7 @@
 #include <atomic>
 #include <thread>
 #include <algorithm> // std::lower_bound
+#include <limits>
 #include <zstd.h>
 #include <zstd_errors.h>
 #include "../bits.hpp"
@@ -130,6 +131,12 @@ namespace stenos
 			return level_for_rate(compress_rates(), rate, shift);
 		}
 
+		static STENOS_ALWAYS_INLINE size_t to_rate(double bytes_per_second) noexcept
+		{
+			// Convert to integer rate, which saturates if no time elapsed or remains (infinite value or NaN)
+			return bytes_per_second < (double)std::numeric_limits<size_t>::max() ? (size_t)bytes_per_second : std::numeric_limits<size_t>::max();
+		}
+
 		static inline int clevel_for_remaining(TimeConstraint& t, size_t processed_bytes, size_t* target_rate = nullptr, unsigned shift = 0) noexcept
 		{
 			// Compute the best possible compressoin level for remaining bytes
@@ -149,7 +156,7 @@ namespace stenos
 			}
 
 			{
-				size_t rate = target_rate ? *target_rate : ((size_t)(remaining_bytes / ((t.nanoseconds - el) * 1.e-9)));
+				size_t rate = target_rate ? *target_rate : to_rate(remaining_bytes / ((t.nanoseconds - el) * 1.e-9));
 				clevel = detail::level_for_rate(rate, shift);
 				if (processed_bytes == 0)
 					return clevel < 1 ? 1 : clevel;
-- 
2.43.0

