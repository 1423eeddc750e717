From 0d9e11efac6dd0d8efc598b5043eb061de299d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 01/96] fix: allocate stream buffers with the block size of
 their stream

A file_stream with a block factor above 1.0 has a larger block size than
the default, but its buffers were allocated for the default block size,
so writing past the default block size overflowed the heap buffer.
---
 tpie/compressed/buffer.cpp | 30 +++++++++++++++++-------------
 tpie/compressed/buffer.h   | 10 ++++++----
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/tpie/compressed/buffer.cpp b/tpie/compressed/buffer.cpp
index 25c341a..afeed48 100644
--- a/tpie/compressed/buffer.cpp
+++ b/tpie/compressed/buffer.cpp
@@ -19,6 +19,7 @@
 
 #include <tpie/compressed/stream.h>
 #include <tpie/compressed/buffer.h>
+#include <algorithm>
 
 namespace tpie {
 
@@ -28,15 +29,19 @@ public:
 
 	const static memory_size_type EXTRA_BUFFERS = 2;
 
-	impl() {
+	impl()
+		: m_sharedBlockSize(compressed_stream_base::block_size(1.0))
+	{
 		m_extraBuffers.reserve(EXTRA_BUFFERS);
 		for (size_t i = 0; i < EXTRA_BUFFERS; ++i) {
-			m_extraBuffers.push_back(std::make_shared<compressor_buffer>(block_size()));
+			m_extraBuffers.push_back(std::make_shared<compressor_buffer>(m_sharedBlockSize));
 		}
 	}
 
-	buffer_t allocate_own_buffer() {
-		return std::make_shared<compressor_buffer>(block_size());
+	buffer_t allocate_own_buffer(memory_size_type blockSize) {
+		// A stream may exchange its own buffer with a shared one,
+		// so no buffer is smaller than the shared buffers.
+		return std::make_shared<compressor_buffer>(std::max(blockSize, m_sharedBlockSize));
 	}
 
 	void release_own_buffer(buffer_t & b) {
@@ -46,8 +51,8 @@ public:
 		buffer_t().swap(b);
 	}
 
-	bool can_take_shared_buffer() {
-		return !m_extraBuffers.empty();
+	bool can_take_shared_buffer(memory_size_type blockSize) {
+		return blockSize <= m_sharedBlockSize && !m_extraBuffers.empty();
 	}
 
 	buffer_t take_shared_buffer() {
@@ -68,9 +73,8 @@ public:
 	}
 
 private:
-	memory_size_type block_size() {
-		return compressed_stream_base::block_size(1.0);
-	}
+	/** Capacity of the shared buffers. */
+	const memory_size_type m_sharedBlockSize;
 
 	std::vector<buffer_t> m_extraBuffers;
 };
@@ -84,16 +88,16 @@ stream_buffer_pool::~stream_buffer_pool() {
 	delete pimpl;
 }
 
-stream_buffer_pool::buffer_t stream_buffer_pool::allocate_own_buffer() {
-	return pimpl->allocate_own_buffer();
+stream_buffer_pool::buffer_t stream_buffer_pool::allocate_own_buffer(memory_size_type blockSize) {
+	return pimpl->allocate_own_buffer(blockSize);
 }
 
 void stream_buffer_pool::release_own_buffer(buffer_t & b) {
 	pimpl->release_own_buffer(b);
 }
 
-bool stream_buffer_pool::can_take_shared_buffer() {
-	return pimpl->can_take_shared_buffer();
+bool stream_buffer_pool::can_take_shared_buffer(memory_size_type blockSize) {
+	return pimpl->can_take_shared_buffer(blockSize);
 }
 
 stream_buffer_pool::buffer_t stream_buffer_pool::take_shared_buffer() {
diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 2a97afe..bf74214 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -218,10 +218,12 @@ public:
 	stream_buffer_pool();
 	~stream_buffer_pool();
 
-	buffer_t allocate_own_buffer();
+	/** Allocate a buffer that holds at least blockSize bytes. */
+	buffer_t allocate_own_buffer(memory_size_type blockSize);
 	void release_own_buffer(buffer_t &);
 
-	bool can_take_shared_buffer();
+	/** Whether there is a shared buffer that holds blockSize bytes. */
+	bool can_take_shared_buffer(memory_size_type blockSize);
 	buffer_t take_shared_buffer();
 	void release_shared_buffer(buffer_t &);
 
@@ -381,7 +383,7 @@ private:
 	}
 
 	bool can_take_shared_buffer() {
-		return the_stream_buffer_pool().can_take_shared_buffer();
+		return the_stream_buffer_pool().can_take_shared_buffer(block_size());
 	}
 
 	buffer_t take_shared_buffer() {
@@ -390,7 +392,7 @@ private:
 
 	buffer_t allocate_own_buffer() {
 		++m_ownBuffers;
-		return the_stream_buffer_pool().allocate_own_buffer();
+		return the_stream_buffer_pool().allocate_own_buffer(block_size());
 	}
 
 	compressor_thread & compressor() {
-- 
2.43.0


From 3fbb11c218843c20d87d41174082cbcf7b5817d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 02/96] fix: do not use cached appends after read_back

read_back() left the number of unchecked writes in place, so a write
following it counted an overwritten item as an appended one, and a
compressed stream accepted a non-appending write.
---
 tpie/compressed/stream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpie/compressed/stream.h b/tpie/compressed/stream.h
index e0bcf8c..c80e902 100644
--- a/tpie/compressed/stream.h
+++ b/tpie/compressed/stream.h
@@ -474,6 +474,9 @@ public:
 	
 	const T & read_back() {
 		if (m_seekState != seek_state::none || m_nextItem == m_bufferBegin) read_back_unlikely();
+		// We are no longer at the end of the stream,
+		// so the next write must check the stream state.
+		m_cachedWrites = 0;
 		++m_cachedReads;
 		--m_offset;
 		m_nextItem -= sizeof(T);
-- 
2.43.0


From 6fad3fab1c58fd411238028b368641f1bac1c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 03/96] fix: recompute cached reads and writes in
 file_stream::set_position

Setting the position within the loaded block left the unchecked read and
write counts of the old position in place, so a following write counted
an overwritten item as an appended one.
---
 tpie/compressed/stream_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index ee6a856..f5604f2 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1181,6 +1181,7 @@ stream_position compressed_stream_base::get_position() {
 }
 
 void compressed_stream_base::set_position(const stream_position & pos) {
+	m_p->uncache_read_writes();
 	m_p->m_updateReadOffsetFromWrite = false;
 	
 	// If the code is correct, short circuiting is not necessary;
@@ -1221,7 +1222,6 @@ void compressed_stream_base::set_position(const stream_position & pos) {
 	
 	m_p->m_nextPosition = pos;
 	m_seekState = seek_state::position;
-	m_p->uncache_read_writes();
 }
 
 bool compressed_stream_base::is_readable() const noexcept { return m_p->m_canRead; }
-- 
2.43.0


From 5b9d7c2f06090973c824e105b63752c31bbc6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 04/96] fix: do not write an empty block after truncating a
 file_stream

Truncating an uncompressed stream to the beginning of its last, not yet
written block left the block dirty, so it was later counted as a block
of the stream although it held no items.
---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index f5604f2..ec63a94 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -432,7 +432,8 @@ public:
 					static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
 				m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
 			}
-			m_bufferDirty = true;
+			// If nothing is left in the block, there is nothing to write.
+			m_bufferDirty = offset > m_streamBlocks * m_blockItems;
 			m_o->m_seekState = compressed_stream_base::seek_state::none;
 			// No need to update m_streamBlocks
 		} else {
-- 
2.43.0


From 9989d8be69a44a9d69d61a5a51de7015bcea99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 05/96] fix: wait for pending block writes before accessing
 user data

The user data is accessed with seek and read or write on the file
descriptor that the compressor thread uses at the same time, so user data
could be written over items, or the other way around.
---
 tpie/compressed/buffer.h        | 13 +++++++++++++
 tpie/compressed/stream_base.cpp | 14 ++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index bf74214..b3a119b 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -344,6 +344,19 @@ public:
 		return m_buffers.empty();
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Whether some buffer is still in use by the compressor thread.
+	///
+	/// \param held  Buffer currently held by the stream, or null.
+	///////////////////////////////////////////////////////////////////////////
+	bool has_pending_requests(const buffer_t & held) const {
+		for (buffermap_t::const_iterator i = m_buffers.begin(); i != m_buffers.end(); ++i) {
+			const long holders = (i->second == held) ? 2 : 1;
+			if (i->second.use_count() > holders) return true;
+		}
+		return false;
+	}
+
 	void clean() {
 		buffermapit i = m_buffers.begin();
 		while (i != m_buffers.end()) {
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index ec63a94..d462912 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -370,6 +370,16 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// Blocks to take the compressor lock.
+	///
+	/// Wait until the compressor thread no longer uses the file accessor.
+	///////////////////////////////////////////////////////////////////////////
+	void wait_for_pending_requests(compressor_thread_lock & l) {
+		while (m_buffers.has_pending_requests(m_buffer))
+			compressor().wait_for_request_done(l);
+	}
+
 	compressor_thread & compressor() { return the_compressor_thread(); }
 
 	///////////////////////////////////////////////////////////////////////////
@@ -805,11 +815,15 @@ memory_size_type compressed_stream_base::block_size() const {
 
 memory_size_type compressed_stream_base::read_user_data(void * data, memory_size_type count) {
 	tp_assert(is_open(), "read_user_data: !is_open");
+	compressor_thread_lock l(m_p->compressor());
+	m_p->wait_for_pending_requests(l);
 	return m_p->m_byteStreamAccessor.read_user_data(data, count);
 }
 
 void compressed_stream_base::write_user_data(const void * data, memory_size_type count) {
 	tp_assert(is_open(), "write_user_data: !is_open");
+	compressor_thread_lock l(m_p->compressor());
+	m_p->wait_for_pending_requests(l);
 	m_p->m_byteStreamAccessor.write_user_data(data, count);
 }
 
-- 
2.43.0


From 0212a20c820f477ad42187f085d07b2ad2b741ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 06/96] fix: find the previous block after get_position at a
 block boundary

get_position() at the end of a full, unwritten block of a compressed
stream starts a new block without updating the read offset, so a
following read_back looked for the previous block in the wrong place.
---
 tpie/compressed/stream_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index d462912..0725280 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1172,6 +1172,7 @@ stream_position compressed_stream_base::get_position() {
 			m_p->flush_block(lock);
 			m_p->get_buffer(lock, m_p->m_streamBlocks);
 			m_nextItem = m_bufferBegin;
+			m_p->m_readOffset = m_p->current_file_size(lock);
 		}
 		break;
 	case seek_state::end:
-- 
2.43.0


From 0c20dafaa3534d9a60474d8f4de23c85abb17ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 07/96] fix: truncate compressed streams at block boundaries

Truncating to the beginning of a block kept that block as an empty last
block, which could not be read afterwards, and computed an item index
relative to the wrong block. Cut the block off instead.
---
 tpie/compressed/stream_base.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 0725280..71ccffa 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -475,12 +475,31 @@ public:
 		stream_size_type offset = pos.offset();
 		stream_position finalDestination = (offset < m_o->offset()) ? pos : m_o->get_position();
 	
+		if (block_item_index(offset) == 0 && block_number(offset) < m_streamBlocks) {
+			// The stream will end with a full block, which stays as it is.
+			// Load that block, and cut off the blocks following it.
+			m_nextPosition = pos;
+			m_o->m_seekState = compressed_stream_base::seek_state::position;
+			perform_seek(read_direction::backward);
+
+			compressor_thread_lock l(compressor());
+			m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+			m_streamBlocks = block_number(offset);
+			m_lastBlockReadOffset = m_readOffset;
+			m_currentFileSize = pos.read_offset();
+			m_response.clear_block_info();
+			m_o->m_size = offset;
+			m_o->set_position(finalDestination);
+			return;
+		}
+
 		if (m_buffer.get() == 0 || block_number(offset) != buffer_block_number()) {
 			m_o->set_position(pos);
 			perform_seek();
 		}
 	
 		// We are truncating into the currently loaded block.
+		const stream_size_type blockBegin = buffer_block_number() * m_blockItems;
 		if (buffer_block_number() < m_streamBlocks) {
 			m_streamBlocks = buffer_block_number() + 1;
 			m_lastBlockReadOffset = pos.read_offset();
@@ -493,10 +512,11 @@ public:
 		if (offset < m_o->m_offset) {
 			m_o->m_offset = offset;
 			memory_size_type blockItemIndex =
-				static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
+				static_cast<memory_size_type>(offset - blockBegin);
 			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
 		}
-		m_bufferDirty = true;
+		// If nothing is left in the block, there is nothing to write.
+		m_bufferDirty = offset > blockBegin;
 	
 		m_o->set_position(finalDestination);
 	}
-- 
2.43.0


From a6e8698b349d997c749ef55d7c773395e973d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 08/96] fix: forget pending block writes when truncating a
 stream to zero

Block writes still pending when a compressed stream was truncated to zero
reported their block numbers afterwards, so that the next lookup of the
last block failed.
---
 tpie/compressed/stream_base.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 71ccffa..430c85a 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -410,10 +410,14 @@ public:
 	void truncate_zero() {
 		// No need to flush block
 		m_buffer.reset();
-		m_response.clear_block_info();
 		m_updateReadOffsetFromWrite = false;
 		compressor_thread_lock l(compressor());
 		finish_requests(l);
+		// Forget about the blocks written before the truncate,
+		// including those that were pending.
+		m_response.clear_block_info();
+		m_lastBlockReadOffset = std::numeric_limits<stream_size_type>::max();
+		m_currentFileSize = std::numeric_limits<stream_size_type>::max();
 		get_buffer(l, 0);
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
-- 
2.43.0


From b547f8ed410229e36d3103b5b19c3e5f7a3d6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 09/96] fix: get the right position at the end of a rewritten
 block

When the last block of a compressed stream is rewritten and becomes full,
get_position() returned the end of the block as it was before the
rewrite.
---
 tpie/compressed/stream_base.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 430c85a..5375a1a 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1181,15 +1181,9 @@ stream_position compressed_stream_base::get_position() {
 	case seek_state::beginning:
 		return stream_position(0, 0);
 	case seek_state::none:
-		if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
-			if (m_nextItem == m_bufferEnd)
-				return stream_position(m_p->m_nextReadOffset, m_offset);
-			else
-				return stream_position(m_p->m_readOffset, m_offset);
-		}
-		// We are in a new block at the end of the stream.
-		if (m_nextItem == m_bufferEnd) {
-			tp_assert(m_p->m_bufferDirty, "At end of buffer, but bufferDirty is false?");
+		if (m_nextItem == m_bufferEnd && m_p->m_bufferDirty) {
+			// We are at the end of a full block that must be written before
+			// we know where it ends.
 			// Make sure the position we get is not at the end of a block
 			compressor_thread_lock lock(m_p->compressor());
 			m_p->m_updateReadOffsetFromWrite = false;
@@ -1197,7 +1191,15 @@ stream_position compressed_stream_base::get_position() {
 			m_p->get_buffer(lock, m_p->m_streamBlocks);
 			m_nextItem = m_bufferBegin;
 			m_p->m_readOffset = m_p->current_file_size(lock);
+			break;
+		}
+		if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
+			if (m_nextItem == m_bufferEnd)
+				return stream_position(m_p->m_nextReadOffset, m_offset);
+			else
+				return stream_position(m_p->m_readOffset, m_offset);
 		}
+		// We are in a new block at the end of the stream.
 		break;
 	case seek_state::end:
 		// Figure out the size of the file below.
-- 
2.43.0


From 2d7db0c3ded8459c4827231b36b401853508efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 10/96] fix: do not mistake a completed write for a completed
 read

The response object of a stream used one flag for reads and writes, so a
stream waiting for a block to be read could go on with an empty buffer
when a write issued earlier completed.
---
 tpie/compressed/request.h       | 11 ++---------
 tpie/compressed/stream_base.cpp |  8 +++-----
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/tpie/compressed/request.h b/tpie/compressed/request.h
index 077bd60..0443eb7 100644
--- a/tpie/compressed/request.h
+++ b/tpie/compressed/request.h
@@ -131,12 +131,7 @@ public:
 		return m_readOffset;
 	}
 
-	// any, thread
-	void set_done() {
-		m_done = true;
-	}
-
-	// any, stream
+	// read, stream
 	bool done() {
 		return m_done;
 	}
@@ -156,7 +151,7 @@ public:
 private:
 	std::condition_variable m_changed;
 
-	// Information about either read or write
+	// Whether the latest read has completed
 	bool m_done;
 
 	// Information about the write
@@ -299,13 +294,11 @@ public:
 
 	// must have lock!
 	void update_recorded_size() {
-		m_response->set_done();
 		if (m_tempFile != NULL) m_tempFile->update_recorded_size(m_fileAccessor->file_size());
 	}
 
 	// must have lock!
 	void update_recorded_size(stream_size_type fileSize) {
-		m_response->set_done();
 		if (m_tempFile != NULL) m_tempFile->update_recorded_size(fileSize);
 	}
 
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 5375a1a..f27928f 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -542,13 +542,11 @@ public:
 
 	void maybe_update_read_offset(compressor_thread_lock & lock) {
 		if (m_updateReadOffsetFromWrite && use_compression()) {
-			while (!m_response.done()) {
+			while (!m_response.has_block_info(m_lastWriteBlockNumber)) {
 				m_response.wait(lock);
 			}
-			if (m_response.has_block_info(m_lastWriteBlockNumber)) {
-				m_readOffset = m_response.get_read_offset(m_lastWriteBlockNumber);
-				m_nextReadOffset = m_readOffset + m_response.get_block_size(m_lastWriteBlockNumber);
-			}
+			m_readOffset = m_response.get_read_offset(m_lastWriteBlockNumber);
+			m_nextReadOffset = m_readOffset + m_response.get_block_size(m_lastWriteBlockNumber);
 			m_updateReadOffsetFromWrite = false;
 		}
 	}
-- 
2.43.0


From 0745ed2798023f43b39385f850b9c540d09d3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 11/96] fix: keep the position when reading past the end of a
 stream

---
 tpie/file.h                | 2 +-
 tpie/uncompressed_stream.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/file.h b/tpie/file.h
index 9ba4e10..928214c 100644
--- a/tpie/file.h
+++ b/tpie/file.h
@@ -101,10 +101,10 @@ public:
  		inline item_type & read_mutable() {
 			assert(get_file().is_open());
 			if (m_index >= m_block->size) {
-				update_block();
 				if (offset() >= get_file().size()) {
 					throw end_of_stream_exception();
 				}
+				update_block();
 			}
 			return reinterpret_cast<T*>(m_block->data)[m_index++];
 		}
diff --git a/tpie/uncompressed_stream.h b/tpie/uncompressed_stream.h
index 4c1bb82..f7ee015 100644
--- a/tpie/uncompressed_stream.h
+++ b/tpie/uncompressed_stream.h
@@ -123,10 +123,10 @@ public:
 	const item_type & peek() {
 		assert(m_open);
 		if (m_index >= m_block.size) {
-			update_block();
 			if (offset() >= size()) {
 				throw end_of_stream_exception();
 			}
+			update_block();
 		}
 		return reinterpret_cast<item_type*>(m_block.data)[m_index];
 	}
-- 
2.43.0


From ec1e29d993763ac75a1faf5cf5af642ff6832467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 12/96] fix: check the bounds of seeks relative to the current
 position

---
 tpie/stream_crtp.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 3edd784..6382fea 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -54,10 +54,15 @@ public:
 			offset += self().size();
 		else if (whence == current) {
 			// are we seeking into the current block?
-			if (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index) {
+			if (m_nextBlock == std::numeric_limits<stream_size_type>::max()
+				&& m_index != std::numeric_limits<memory_size_type>::max()
+				&& (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index)) {
+
 				stream_size_type new_index = static_cast<stream_offset_type>(offset+m_index);
 
-				if (new_index < self().get_file().block_items()) {
+				if (new_index < self().get_file().block_items()
+					&& new_index + m_blockStartIndex <= self().size()) {
+
 					self().update_vars();
 					m_index = static_cast<memory_size_type>(new_index);
 					return;
-- 
2.43.0


From 66b6d386f1022ef7e78063cbc730d6317ded05a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 13/96] fix: check for end of stream before reading an array

---
 tpie/stream_crtp.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 6382fea..a357415 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -171,16 +171,13 @@ protected:
 	static inline void read_array(Stream & stream, const IT & start, const IT & end) {
 		typedef typename Stream::item_type T;
 		IT i = start;
-		while (i != end) {
-			if (stream.m_index >= stream.block_items()) {
-				// check to make sure we have enough items in the stream
-				stream_size_type offs = stream.offset();
-				if (offs >= stream.size()
-					|| offs + (end-i) > stream.size()) {
 
-					throw end_of_stream_exception();
-				}
+		// check to make sure we have enough items in the stream
+		if (start != end && stream.offset() + (end-start) > stream.size())
+			throw end_of_stream_exception();
 
+		while (i != end) {
+			if (stream.m_index >= stream.block_items()) {
 				// fetch next block from disk
 				stream.update_block();
 			}
-- 
2.43.0


From bced2b5268c587e574fb4e70e1f6a49c000bd8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 14/96] fix: keep the size of a queue when popping from it
 while empty

---
 tpie/queue.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpie/queue.h b/tpie/queue.h
index 3af8aee..de2531f 100644
--- a/tpie/queue.h
+++ b/tpie/queue.h
@@ -99,20 +99,23 @@ public:
 	/// \return The dequeued item
 	////////////////////////////////////////////////////////////////////
 	const T & pop() {
-		--m_size;
 		if(pop_queue().can_read()) {
 			// The front of the queue is the pop stream
+			--m_size;
 			return pop_queue().read();
 		} else if (!m_centerQueue.empty()) {
 			// The front of the queue is the center queue
 			const T & i = m_centerQueue.front();
 			m_centerQueue.pop();
+			--m_size;
 			return i;
 		} else {
 			// The front of the queue is the push stream,
 			// so we swap the push stream and the pop stream.
 			swap_file_streams();
-			return pop_queue().read();
+			const T & i = pop_queue().read();
+			--m_size;
+			return i;
 		}
 	}
 
-- 
2.43.0


From 05ce207de827182f466b8b0f8a2594da364ec354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 15/96] fix: make the variants of sort taking an
 uncompressed_stream or an AMI comparator compile

---
 tpie/sort.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tpie/sort.h b/tpie/sort.h
index bdeb6d9..c8ea429 100644
--- a/tpie/sort.h
+++ b/tpie/sort.h
@@ -140,7 +140,7 @@ void generic_sort(Stream & instream, Stream & outstream, Compare comp,
 template<typename T, typename Compare>
 void sort(uncompressed_stream<T> &instream, uncompressed_stream<T> &outstream,
 		  Compare comp, progress_indicator_base & indicator) {
-	bits::generic_sort<uncompressed_stream<T>, T, Compare>(instream, outstream, &comp, &indicator);
+	bits::generic_sort<uncompressed_stream<T>, T, Compare>(instream, outstream, comp, &indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -150,7 +150,17 @@ template<typename T>
 void sort(uncompressed_stream<T> &instream, uncompressed_stream<T> &outstream,
 		  tpie::progress_indicator_base* indicator=NULL) {
 	std::less<T> comp;
-	sort(instream, outstream, comp, indicator);
+	bits::generic_sort<uncompressed_stream<T>, T>(instream, outstream, comp, indicator);
+}
+
+///////////////////////////////////////////////////////////////////////////////
+/// \brief Sort elements of a stream using the given STL-style comparator
+/// object.
+///////////////////////////////////////////////////////////////////////////////
+template<typename T, typename Compare>
+void sort(file_stream<T> &instream, file_stream<T> &outstream,
+		  Compare comp, progress_indicator_base & indicator) {
+	bits::generic_sort<file_stream<T>, T, Compare>(instream, outstream, comp, &indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -178,7 +188,7 @@ void sort(file_stream<T> &instream, file_stream<T> &outstream,
 template<typename T, typename Compare>
 void sort(uncompressed_stream<T> &instream, Compare comp,
 		  progress_indicator_base & indicator) {
-	sort(instream, instream, comp, &indicator);
+	bits::generic_sort<uncompressed_stream<T>, T>(instream, comp, &indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 5e75f56f914ecd57d7c51ca3c70b136cb4401696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 16/96] fix: free the items a merge sorter still holds when
 evacuated or destroyed

---
 tpie/pipelining/merge_sorter.cpp |  2 ++
 tpie/pipelining/merge_sorter.h   | 12 +++++++++---
 tpie/pipelining/merger.h         |  9 +++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index 89245a5..7b1eead 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -205,6 +205,8 @@ merge_sorter_base::merge_sorter_base(
 	, m_state(stNotStarted)
 	, p()
 	, m_parametersSet(false)
+	, m_currentRunItemCount(0)
+	, m_itemsPulled(0)
 	, m_maxItems(std::numeric_limits<stream_size_type>::max())
 	, m_evacuated(false)
 	, m_finalMergeInitialized(false)
diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index 45a58e1..37788ba 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -414,7 +414,12 @@ public:
 		, m_currentRunItems(m_bucket)
 		, pred(pred)
 		{}
-	
+
+	~merge_sorter() {
+		// The store may own memory for the items that have not been pulled.
+		for (memory_size_type i = m_itemsPulled; i < m_currentRunItemCount; ++i)
+			m_store.store_to_element(std::move(m_currentRunItems[i]));
+	}
 
 public:
 	///////////////////////////////////////////////////////////////////////////
@@ -566,9 +571,10 @@ private:
 			log_pipe_debug() << "..." << std::endl;
 		file_stream<element_type> fs;
 		open_run_file_write(fs, 0, m_finishedRuns);
-		for (memory_size_type i = 0; i < m_currentRunItemCount; ++i)
-			fs.write(m_store.store_to_element(std::move(m_currentRunItems[i])));
+		memory_size_type itemCount = m_currentRunItemCount;
 		m_currentRunItemCount = 0;
+		for (memory_size_type i = 0; i < itemCount; ++i)
+			fs.write(m_store.store_to_element(std::move(m_currentRunItems[i])));
 		++m_finishedRuns;
 	}
 
diff --git a/tpie/pipelining/merger.h b/tpie/pipelining/merger.h
index 0b3e77d..ac5c8da 100644
--- a/tpie/pipelining/merger.h
+++ b/tpie/pipelining/merger.h
@@ -43,6 +43,10 @@ public:
 		, m_store(store) {
 	}
 
+	~merger() {
+		reset();
+	}
+
 	bool can_pull() {
 		return !pq.empty();
 	}
@@ -65,6 +69,11 @@ public:
 	}
 
 	void reset() {
+		// The store may own memory for the items that have not been pulled.
+		while (!pq.empty()) {
+			m_store.store_to_element(std::move(pq.top().first));
+			pq.pop();
+		}
 		in.resize(0);
 		pq.resize(0);
 		itemsRead.resize(0);
-- 
2.43.0


From cf150514642e58efb6cc52f483f12773d35cebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 17/96] fix: add the overheads of two linear memory usages

---
 tpie/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/util.h b/tpie/util.h
index a908d1b..9ab3f1f 100644
--- a/tpie/util.h
+++ b/tpie/util.h
@@ -79,7 +79,7 @@ struct linear_memory_usage {
 	}
 
     constexpr friend linear_memory_usage operator + (const linear_memory_usage & l, const linear_memory_usage & r) noexcept {
-		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead * r.overhead);
+		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead + r.overhead);
 	}
 };
 
-- 
2.43.0


From f5effcf45ec394bc3d2b34de6047eea75b607151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 18/96] fix: compute the minimum memory of merge sorting with a
 positive file limit

---
 tpie/pipelining/merge_sorter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index 7b1eead..87578cd 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -371,6 +371,7 @@ void merge_sorter_base::calculate_parameters() {
 
 memory_size_type merge_sorter_base::calculate_fanout(
 	memory_size_type availableMemory, memory_size_type availableFiles) noexcept {
+	if (!availableFiles) availableFiles = defaultFiles;
 	memory_size_type fanout_lo = 2;
 	memory_size_type fanout_hi = availableFiles - 2;
 	// binary search
-- 
2.43.0


From a6df40048298557664e667fb1dc9408d817760fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 19/96] fix: delete the file accessor of an uncompressed stream

---
 tpie/file_stream_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 2608d94..00bc219 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -85,6 +85,7 @@ protected:
 
 	inline ~file_stream_base() {
 		close();
+		delete m_fileAccessor;
 	}
 
 	void swap(file_stream_base & other) {
-- 
2.43.0


From 4b3e5721f29a2c666a0d75a2df2c559b59456c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 20/96] fix: serialize and unserialize containers of containers

---
 tpie/serialization2.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/tpie/serialization2.h b/tpie/serialization2.h
index a594439..0f3ca4c 100644
--- a/tpie/serialization2.h
+++ b/tpie/serialization2.h
@@ -110,6 +110,43 @@ void unserialize(S & src, T & v,
 	src.read((char *)&v, sizeof(T));
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Forward declarations, so that containers of any of these types can be
+// serialized no matter which namespace the writer or reader is declared in.
+///////////////////////////////////////////////////////////////////////////////
+template <typename D, typename T>
+void serialize(D & dst, T start, T end);
+template <typename D, typename T>
+void unserialize(D & dst, T start, T end);
+template <typename D, typename T, std::size_t size>
+void serialize(D & dst, const T (&x)[size]);
+template <typename S, typename T, std::size_t size>
+void unserialize(S & src, T (&x)[size]);
+template <typename D, typename T, std::size_t size>
+void serialize(D & dst, const std::array<T, size> & v);
+template <typename S, typename T, std::size_t size>
+void unserialize(S & src, std::array<T, size> & v);
+template <typename D, typename T, typename alloc_t>
+void serialize(D & dst, const std::vector<T, alloc_t> & v);
+template <typename S, typename T, typename alloc_t>
+void unserialize(S & src, std::vector<T, alloc_t> & v);
+template <typename D, typename T>
+void serialize(D & dst, const tpie::array<T> & v);
+template <typename S, typename T>
+void unserialize(S & src, tpie::array<T> & v);
+template <typename D, typename T>
+void serialize(D & dst, const std::basic_string<T> & v);
+template <typename S, typename T>
+void unserialize(S & src, std::basic_string<T> & v);
+template <typename D, typename T, typename U>
+void serialize(D & dst, const std::pair<T,U> & v);
+template <typename S, typename T, typename U>
+void unserialize(S & src, std::pair<T,U> & v);
+template <typename D, typename... Ts>
+void serialize(D & dst, const std::tuple<Ts...> & t);
+template <typename S, typename... Ts>
+void unserialize(S & src, std::tuple<Ts...> & t);
+
 namespace bits {
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 0a08fd982d1af776297785f4ffc00d43db55190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 21/96] fix: write buffered data when reopening a serialization
 writer

---
 tpie/serialization_stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 128b292..3fc56f4 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -239,12 +239,14 @@ void serialization_writer::write_block() {
 }
 
 void serialization_writer::open(std::string path) {
+	close();
 	p_t::open(path, false);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, false);
 	m_block.resize(block_size());
 	m_index = 0;
@@ -274,12 +276,14 @@ void serialization_reverse_writer::write_block() {
 }
 
 void serialization_reverse_writer::open(std::string path) {
+	close();
 	p_t::open(path, true);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_reverse_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, true);
 	m_block.resize(block_size());
 	m_index = 0;
-- 
2.43.0


From 5e7c0d0f0a44387b46d43a97993e357bed41fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 22/96] fix: record the size of a temporary file emptied by a
 serialization writer

---
 tpie/serialization_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 3fc56f4..2ee165b 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -194,6 +194,7 @@ void serialization_writer_base::open(std::string path, bool reverse) {
 void serialization_writer_base::open(temp_file & tempFile, bool reverse) {
 	m_tempFile = &tempFile;
 	open_inner(tempFile.path(), reverse);
+	tempFile.update_recorded_size(m_size);
 }
 
 void serialization_writer_base::write_block(const char * const s, const memory_size_type n) {
-- 
2.43.0


From 2e8f02e21f4568e73b2ab3d75936f3d677abed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 23/96] fix: forget the size of a temporary file that was
 deleted before its temp_file

---
 tpie/tempname.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 7c84c21..a551646 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -300,10 +300,11 @@ namespace tpie {
 namespace bits {
 
 temp_file_inner::~temp_file_inner() {
-	if (m_path.empty() || m_persist || !std::filesystem::exists(m_path))
+	if (m_path.empty() || m_persist)
 		return;
 
-	std::filesystem::remove(m_path);
+	if (std::filesystem::exists(m_path))
+		std::filesystem::remove(m_path);
 	update_recorded_size(0);
 }
 
-- 
2.43.0


From 941193e558011b05e31d168445f0eac96b20a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 24/96] fix: report reading past the end of a file instead of
 looping forever

---
 tpie/file_accessor/posix.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 1c08c44..feee7b5 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -75,6 +75,8 @@ inline void posix::read_i(void * data, memory_size_type size) {
 		memory_offset_type bytesRead = ::read(m_fd, data, size);
 		if (bytesRead == -1)
 			throw_errno();
+		if (bytesRead == 0 && size != 0)
+			throw io_exception("Unexpected end of file");
 		data = static_cast<char *>(data) + bytesRead;
 		size -= bytesRead;
 		increment_bytes_read(bytesRead);
-- 
2.43.0


From dfd49f7e20315b3b1289b1648a7eb5dfcf3d2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 25/96] fix: find the first of several B-tree items with the
 same key

---
 tpie/btree/btree.h | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 293fe29..9c2a921 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -377,28 +377,10 @@ public:
 	 */
 	template <typename K, typename X=enab>
 	iterator find(K v, enable<X, is_ordered> =enab()) const {
-		iterator itr(&m_state);
-
-		if(m_state.store().height() == 0) {
-			itr.goto_end();
-			return itr;
-		}
-
-		std::vector<internal_type> path;
-		leaf_type l = find_leaf<true>(path, v);
-	
-		size_t i=0;
-		size_t z = m_state.store().count(l);
-		while (true) {
-			if (i == z) {
-				itr.goto_end();
-				return itr;
-			}
-			if (!m_comp(m_state.min_key(l, i), v) &&
-				!m_comp(v, m_state.min_key(l, i))) break;
-			++i;
-		}
-		itr.goto_item(path, l, i);
+		// Items with the same key may span several leaves.
+		iterator itr = lower_bound(v);
+		if (itr == end() || m_comp(v, m_state.min_key(itr.m_leaf, itr.m_index)))
+			return end();
 		return itr;
 	}
 
-- 
2.43.0


From 68d41d16a8eb04e94ba7f00febe4814cc8216150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 26/96] fix: iterate over an empty serialized B-tree that was
 just built

---
 tpie/btree/serialized_store.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 11568b7..9408863 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -299,11 +299,12 @@ private:
 		}
 
 		bool operator==(const leaf_type & o) const noexcept {
+			if (!ptr || !o.ptr) return !ptr && !o.ptr;
 			return ptr->my_offset == o->my_offset;
 		}
 
 		bool operator!=(const leaf_type & o) const noexcept {
-			return !(this == o);
+			return !(*this == o);
 		}
 	};
 
-- 
2.43.0


From e65ebdbe2ec5831356a747aade799d69c3b81586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 27/96] fix: read the metadata of a serialized B-tree from
 where it is stored

---
 tpie/btree/serialized_store.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 9408863..0150770 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -603,6 +603,7 @@ private:
 		if (metadata_offset == 0 || metadata_size == 0)
 			return {};
 		std::string data(metadata_size, '\0');
+		f->seekg(metadata_offset);
 		f->read(&data[0], metadata_size);
 		return data;
 	}
-- 
2.43.0


From e1fa2591ff03bf2b9cdd7405b46332de9c185822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 28/96] fix: do not close a file a second time when closing it
 reported an error

---
 tpie/file_accessor/posix.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index feee7b5..d92d611 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -145,9 +145,11 @@ bool posix::is_open() const {
 
 void posix::close_i() {
 	if (m_fd == -1) return;
-	if (::close(m_fd) == -1) throw_errno();
-	get_file_manager().decrement_open_file_count();
+	// The descriptor is released even if close reports an error.
+	const int fd = m_fd;
 	m_fd = -1;
+	get_file_manager().decrement_open_file_count();
+	if (::close(fd) == -1) throw_errno();
 }
 
 void posix::truncate_i(stream_size_type bytes) {
-- 
2.43.0


From a6124f0acb0800eddcfa987473295f83e07eef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 29/96] fix: close the file when opening or closing a stream
 fails

---
 tpie/file_accessor/stream_accessor_base.inl | 41 +++++++++++++--------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index d3bcf21..b55daf1 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -134,22 +134,28 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 	m_lastBlockReadOffset = std::numeric_limits<stream_size_type>::max();
 	if (!write && !read)
 		throw invalid_argument_exception("Either read or write must be specified");
-	if (write && !read) {
-		m_fileAccessor.open_wo(path);
-		write_header(false);
-		write_user_data(0, 0);
-	} else if (!write && read) {
-		m_fileAccessor.open_ro(path);
-		read_header();
-	} else {
-		if (!m_fileAccessor.try_open_rw(path)) {
-			m_fileAccessor.open_rw_new(path);
+	try {
+		if (write && !read) {
+			m_fileAccessor.open_wo(path);
 			write_header(false);
 			write_user_data(0, 0);
-		} else {
+		} else if (!write && read) {
+			m_fileAccessor.open_ro(path);
 			read_header();
-			write_header(false);
+		} else {
+			if (!m_fileAccessor.try_open_rw(path)) {
+				m_fileAccessor.open_rw_new(path);
+				write_header(false);
+				write_user_data(0, 0);
+			} else {
+				read_header();
+				write_header(false);
+			}
 		}
+	} catch (...) {
+		// Do not leave the file open when it is rejected.
+		m_fileAccessor.close_i();
+		throw;
 	}
 	m_open = true;
 	if (write && m_maxUserDataSize < maxUserDataSize) {
@@ -162,10 +168,15 @@ template <typename file_accessor_t>
 void stream_accessor_base<file_accessor_t>::close() {
 	if (!m_open)
 		return;
-	if (m_write)
-		write_header(true);
-	m_fileAccessor.close_i();
 	m_open = false;
+	try {
+		if (m_write)
+			write_header(true);
+	} catch (...) {
+		m_fileAccessor.close_i();
+		throw;
+	}
+	m_fileAccessor.close_i();
 }
 
 template <typename file_accessor_t>
-- 
2.43.0


From 90eb09317c66c19de082cca44fc19350d5dfef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 30/96] fix: report I/O errors of the compressor thread to the
 stream instead of terminating

---
 tpie/compressed/request.cpp                 |  2 +
 tpie/compressed/request.h                   | 59 ++++++++++++++
 tpie/compressed/stream_base.cpp             | 87 ++++++++++++++++++---
 tpie/compressed/thread.cpp                  | 23 +++++-
 tpie/file_accessor/stream_accessor_base.h   |  5 ++
 tpie/file_accessor/stream_accessor_base.inl |  8 ++
 6 files changed, 169 insertions(+), 15 deletions(-)

diff --git a/tpie/compressed/request.cpp b/tpie/compressed/request.cpp
index 735bb23..fc19ca5 100644
--- a/tpie/compressed/request.cpp
+++ b/tpie/compressed/request.cpp
@@ -23,7 +23,9 @@
 namespace tpie {
 
 void compressor_response::wait(compressor_thread_lock & lock) {
+	check_write_error();
 	m_changed.wait(lock.get_lock());
+	check_write_error();
 }
 
 } // namespace tpie
diff --git a/tpie/compressed/request.h b/tpie/compressed/request.h
index 0443eb7..c709011 100644
--- a/tpie/compressed/request.h
+++ b/tpie/compressed/request.h
@@ -33,6 +33,7 @@
 #include <tpie/file_accessor/byte_stream_accessor.h>
 #include <tpie/compressed/predeclare.h>
 #include <tpie/compressed/direction.h>
+#include <exception>
 
 namespace tpie {
 
@@ -58,11 +59,13 @@ public:
 		, m_endOfStream(false)
 		, m_nextReadOffset(0)
 		, m_nextBlockSize(0)
+		, m_writeErrorReported(false)
 	{
 	}
 
 	// any, stream
 	// Waits on the condition variable m_changed.
+	// Throws if a write request has failed.
 	void wait(compressor_thread_lock & lock);
 
 	// any, stream
@@ -71,6 +74,47 @@ public:
 		m_nextReadOffset = m_nextBlockSize = 0;
 	}
 
+	// write, thread -- must have lock!
+	// The stream is told about the first error.
+	void set_write_error(std::exception_ptr error) {
+		if (!m_writeError) m_writeError = error;
+		m_changed.notify_all();
+	}
+
+	// write, stream
+	// Once a write has failed, the stream is not intact until it is opened again.
+	void check_write_error() {
+		if (!m_writeError) return;
+		m_writeErrorReported = true;
+		std::rethrow_exception(m_writeError);
+	}
+
+	// write, stream
+	bool write_error_reported() const {
+		return m_writeErrorReported;
+	}
+
+	// read, thread -- must have lock!
+	void set_read_error(std::exception_ptr error) {
+		m_readError = error;
+		m_done = true;
+		m_changed.notify_all();
+	}
+
+	// read, stream
+	void check_read_error() {
+		if (!m_readError) return;
+		std::exception_ptr error;
+		std::swap(error, m_readError);
+		std::rethrow_exception(error);
+	}
+
+	// any, stream
+	void clear_errors() {
+		m_writeError = m_readError = std::exception_ptr();
+		m_writeErrorReported = false;
+	}
+
 	// write, stream
 	void clear_block_info() {
 		m_blockNumber = std::numeric_limits<stream_size_type>::max();
@@ -163,6 +207,11 @@ private:
 	bool m_endOfStream;
 	stream_size_type m_nextReadOffset;
 	memory_size_type m_nextBlockSize;
+
+	// Errors met by the compressor thread
+	std::exception_ptr m_writeError;
+	bool m_writeErrorReported;
+	std::exception_ptr m_readError;
 };
 
 #ifdef __GNUC__
@@ -232,6 +281,11 @@ public:
 		m_response->set_next_block_offset(offset);
 	}
 
+	// must have lock!
+	void set_error(std::exception_ptr error) {
+		m_response->set_read_error(error);
+	}
+
 private:
 	buffer_t m_buffer;
 	file_accessor_t * m_fileAccessor;
@@ -292,6 +346,11 @@ public:
 		m_response->set_block_info(m_blockNumber, readOffset, blockSize);
 	}
 
+	// must have lock!
+	void set_error(std::exception_ptr error) {
+		m_response->set_write_error(error);
+	}
+
 	// must have lock!
 	void update_recorded_size() {
 		if (m_tempFile != NULL) m_tempFile->update_recorded_size(m_fileAccessor->file_size());
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index f27928f..0975a9b 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -91,7 +91,13 @@ public:
 	}
 
 	~close_on_fail_guard() {
-		if (!m_committed) m_stream->close();
+		if (m_committed) return;
+		try {
+			m_stream->close();
+		} catch (std::exception & e) {
+			// The exception that made the method fail is the one to report.
+			log_error() << "Error when closing a stream that failed: " << e.what() << std::endl;
+		}
 	}
 
 	void commit() {
@@ -123,6 +129,8 @@ public:
 	bool m_canWrite;
 	/** Whether we are open. */
 	bool m_open;
+	/** Whether an operation that did not complete may have damaged the contents. */
+	bool m_damaged;
 	/** Size of a single item. itemSize * blockItems == blockSize. */
 	memory_size_type m_itemSize;
 
@@ -182,6 +190,7 @@ public:
 		, m_canRead(false)
 		, m_canWrite(false)
 		, m_open(false)
+		, m_damaged(false)
 		, m_itemSize(itemSize)
 		, m_ownedTempFile(/* empty unique_ptr */)
 		, m_tempFile(0)
@@ -217,6 +226,8 @@ public:
 								  compressionFlags);
 		m_o->m_size = m_byteStreamAccessor.size();
 		m_open = true;
+		m_damaged = false;
+		m_response.clear_errors();
 		m_streamBlocks = (m_o->m_size + m_blockItems - 1) / m_blockItems;
 		m_lastBlockReadOffset = m_byteStreamAccessor.get_last_block_read_offset();
 		m_currentFileSize = m_byteStreamAccessor.file_size();
@@ -247,6 +258,7 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	void flush_block(compressor_thread_lock & lock) {
 		uncache_read_writes();
+		m_response.check_write_error();
 		stream_size_type blockNumber = buffer_block_number();
 		stream_size_type writeOffset;
 		if (!use_compression()) {
@@ -656,6 +668,7 @@ public:
 		while (!m_response.done()) {
 			m_response.wait(lock);
 		}
+		m_response.check_read_error();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -890,21 +903,48 @@ void compressed_stream_base::open(temp_file & file, open::type openFlags,
 
 void compressed_stream_base::close() {
 	m_p->uncache_read_writes();
+	std::exception_ptr error;
 	if (m_p->m_open) {
 		compressor_thread_lock l(m_p->compressor());
 
-		if (m_p->m_bufferDirty)
-			m_p->flush_block(l);
+		// If the user knows that the stream is damaged,
+		// it is closed quietly but not marked as properly closed.
+		const bool reported = m_p->m_damaged || m_p->m_response.write_error_reported();
+		bool intact = !reported;
+
+		try {
+			if (intact && m_p->m_bufferDirty)
+				m_p->flush_block(l);
+		} catch (...) {
+			intact = false;
+			error = std::current_exception();
+		}
 
+		m_p->m_bufferDirty = false;
 		m_p->m_buffer.reset();
 
 		m_p->finish_requests(l);
 
-		if (m_p->use_compression()) {
-			m_p->m_byteStreamAccessor.set_last_block_read_offset(m_p->last_block_read_offset(l));
+		try {
+			if (intact) {
+				m_p->m_response.check_write_error();
+				if (m_p->use_compression()) {
+					m_p->m_byteStreamAccessor.set_last_block_read_offset(m_p->last_block_read_offset(l));
+				}
+				m_p->m_byteStreamAccessor.set_size(m_size);
+				m_p->m_byteStreamAccessor.close();
+			}
+		} catch (...) {
+			error = std::current_exception();
+		}
+
+		try {
+			// This does nothing if the file was properly closed above.
+			m_p->m_byteStreamAccessor.close_unclean();
+		} catch (...) {
+			if (!reported && !error)
+				error = std::current_exception();
 		}
-		m_p->m_byteStreamAccessor.set_size(m_size);
-		m_p->m_byteStreamAccessor.close();
 	}
 	m_p->m_open = false;
 	m_p->m_tempFile = NULL;
@@ -913,6 +953,9 @@ void compressed_stream_base::close() {
 	// If read/write is called on the closed stream,
 	// perform_seek throws an exception.
 	m_seekState = seek_state::beginning;
+
+	if (error)
+		std::rethrow_exception(error);
 }
 
 
@@ -939,6 +982,7 @@ void compressed_stream_base::peak_unlikely() {
 	if (m_seekState != seek_state::none) m_p->perform_seek();
 	if (m_offset == m_size) throw end_of_stream_exception();
 	if (m_nextItem == m_bufferEnd) {
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = false;
@@ -946,6 +990,7 @@ void compressed_stream_base::peak_unlikely() {
 		}
 		// At this point, block_number() == buffer_block_number() + 1
 		m_p->read_next_block(l, m_p->block_number());
+		closeOnFail.commit();
 	}
 }
 
@@ -957,6 +1002,7 @@ void compressed_stream_base::read_back_unlikely() {
 	if (m_nextItem == m_bufferBegin) {
 		if (m_offset == 0) throw end_of_stream_exception();
 		m_p->uncache_read_writes();
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = true;
@@ -968,6 +1014,7 @@ void compressed_stream_base::read_back_unlikely() {
 			m_p->read_next_block(l, m_p->block_number() - 1);
 			m_nextItem = m_bufferEnd;
 		}
+		closeOnFail.commit();
 	}
 }
 
@@ -977,6 +1024,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 	
 	if (!m_p->use_compression()) {
 		if (m_nextItem == m_bufferEnd) {
+			close_on_fail_guard closeOnFail(this);
 			compressor_thread_lock lock(m_p->compressor());
 			if (m_p->m_bufferDirty) {
 				m_p->m_updateReadOffsetFromWrite = true;
@@ -988,6 +1036,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 			} else {
 				m_p->read_next_block(lock, m_p->block_number());
 			}
+			closeOnFail.commit();
 		}
 		if (offset() == m_size) ++m_size;
 		memcpy(m_nextItem, item, m_p->m_itemSize);
@@ -1002,6 +1051,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 		throw stream_exception("Non-appending write attempted");
 	
 	if (m_nextItem == m_bufferEnd) {
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = true;
@@ -1009,6 +1059,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 		}
 		m_p->get_buffer(l, m_p->m_streamBlocks);
 		m_nextItem = m_bufferBegin;
+		closeOnFail.commit();
 	}
 	
 	memcpy(m_nextItem, item, m_p->m_itemSize);
@@ -1144,12 +1195,17 @@ void compressed_stream_base::truncate(stream_size_type offset) {
 	m_p->uncache_read_writes();
 	if (offset == size())
 		return;
-	else if (offset == 0)
+	if (offset != 0 && m_p->use_compression())
+		throw stream_exception("Arbitrary truncate is not supported");
+
+	close_on_fail_guard closeOnFail(this);
+	m_p->m_damaged = true;
+	if (offset == 0)
 		m_p->truncate_zero();
-	else if (!m_p->use_compression())
-		m_p->truncate_uncompressed(offset);
 	else
-		throw stream_exception("Arbitrary truncate is not supported");
+		m_p->truncate_uncompressed(offset);
+	m_p->m_damaged = false;
+	closeOnFail.commit();
 	
 	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
@@ -1159,12 +1215,19 @@ void compressed_stream_base::truncate(const stream_position & pos) {
 	m_p->uncache_read_writes();
 	if (pos.offset() == size())
 		return;
-	else if (pos.offset() == 0)
+	if (pos.offset() > size() && m_p->use_compression())
+		throw stream_exception("truncate: Invalid position, offset > size");
+
+	close_on_fail_guard closeOnFail(this);
+	m_p->m_damaged = true;
+	if (pos.offset() == 0)
 		m_p->truncate_zero();
 	else if (!m_p->use_compression())
 		m_p->truncate_uncompressed(pos.offset());
 	else
 		m_p->truncate_compressed(pos);
+	m_p->m_damaged = false;
+	closeOnFail.commit();
 	
 	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index c7c09da..85cd349 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -123,10 +123,18 @@ public:
 					case compressor_request_kind::NONE:
 						throw exception("Invalid request");
 					case compressor_request_kind::READ:
-						process_read_request(r.get_read_request());
+						try {
+							process_read_request(r.get_read_request());
+						} catch (...) {
+							request_failed(r.get_read_request());
+						}
 						break;
 					case compressor_request_kind::WRITE:
-						process_write_request(r.get_write_request());
+						try {
+							process_write_request(r.get_write_request());
+						} catch (...) {
+							request_failed(r.get_write_request());
+						}
 						break;
 				}
 			}
@@ -136,6 +144,15 @@ public:
 	}
 
 private:
+	// Called from an exception handler.
+	// Leaves it to the stream that made the request to report the error.
+	template <typename request_t>
+	void request_failed(request_t & r) {
+		compressor_thread_lock::lock_t lock(mutex());
+		r.buffer()->set_state(compressor_buffer_state::dirty);
+		r.set_error(std::current_exception());
+	}
+
 	void checked_read(read_request & rr, stream_size_type readOffset, void * buf, memory_size_type count) {
 		memory_size_type nRead = rr.file_accessor().read(readOffset, buf, count);
 		if (nRead != count) {
@@ -155,7 +172,7 @@ private:
 			if (blockSize > rr.buffer()->capacity()) {
 				throw stream_exception("Internal error; blockSize > buffer capacity");
 			}
-			rr.file_accessor().read(readOffset, rr.buffer()->get(), blockSize);
+			checked_read(rr, readOffset, rr.buffer()->get(), blockSize);
 			rr.buffer()->set_size(blockSize);
 			compressor_thread_lock::lock_t lock(mutex());
 			// Notify that reading has completed.
diff --git a/tpie/file_accessor/stream_accessor_base.h b/tpie/file_accessor/stream_accessor_base.h
index d1e8e24..3fe7b1a 100644
--- a/tpie/file_accessor/stream_accessor_base.h
+++ b/tpie/file_accessor/stream_accessor_base.h
@@ -131,6 +131,11 @@ public:
 
 	inline void close();
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Close the file without marking it as properly closed.
+	///////////////////////////////////////////////////////////////////////////
+	inline void close_unclean();
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Read the given number of items from the given block into the
 	/// given buffer.
diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index b55daf1..3f57346 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -179,6 +179,14 @@ void stream_accessor_base<file_accessor_t>::close() {
 	m_fileAccessor.close_i();
 }
 
+template <typename file_accessor_t>
+void stream_accessor_base<file_accessor_t>::close_unclean() {
+	if (!m_open)
+		return;
+	m_open = false;
+	m_fileAccessor.close_i();
+}
+
 template <typename file_accessor_t>
 void stream_accessor_base<file_accessor_t>::truncate(stream_size_type items) {
 	if (m_useCompression && items != 0)
-- 
2.43.0


From dc2777110ee16bd65ec37e1048a3dc566c4dbcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 31/96] fix: release an uncompressed stream whose last block
 cannot be written

---
 tpie/file_base_crtp.h     | 17 ++++++++++++----
 tpie/file_stream_base.cpp |  1 +
 tpie/file_stream_base.h   | 43 +++++++++++++++++++++++++++++++++++----
 3 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/tpie/file_base_crtp.h b/tpie/file_base_crtp.h
index 0a78d7d..10a1fd0 100644
--- a/tpie/file_base_crtp.h
+++ b/tpie/file_base_crtp.h
@@ -245,10 +245,13 @@ public:
 	/// Note all streams into the file must be freed before you call close.
 	/////////////////////////////////////////////////////////////////////////
 	inline void close() {
-		if (m_open) m_fileAccessor->close();
-		m_open = false;
-		m_tempFile = NULL;
-		m_ownedTempFile.reset();
+		try {
+			if (m_open) m_fileAccessor->close();
+		} catch (...) {
+			set_closed();
+			throw;
+		}
+		set_closed();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -293,6 +296,12 @@ protected:
 	file_base_crtp(memory_size_type itemSize, double blockFactor,
 				   file_accessor::file_accessor * fileAccessor);
 
+	void set_closed() {
+		m_open = false;
+		m_tempFile = NULL;
+		m_ownedTempFile.reset();
+	}
+
 
 	template <typename BT>
 	void read_block(BT & b, stream_size_type block);
diff --git a/tpie/file_stream_base.cpp b/tpie/file_stream_base.cpp
index 4cb4f1c..1bbc26e 100644
--- a/tpie/file_stream_base.cpp
+++ b/tpie/file_stream_base.cpp
@@ -34,6 +34,7 @@ file_stream_base::file_stream_base(memory_size_type itemSize,
 	m_index = std::numeric_limits<memory_size_type>::max();
 	m_block.data = 0;
 	m_block.dirty = false;
+	m_flushFailed = false;
 }
 
 void file_stream_base::get_block(stream_size_type block) {
diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 00bc219..3a6f8bc 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -50,9 +50,13 @@ public:
 	/// This will close the file and resources used by buffers and such.
 	/////////////////////////////////////////////////////////////////////////
 	inline void close() {
-		if (m_open) flush_block();
-		tpie_delete_array(m_block.data, m_itemSize * m_blockItems);
-		m_block.data = 0;
+		try {
+			if (m_open) flush_block();
+		} catch (...) {
+			discard();
+			throw;
+		}
+		delete_block();
 		p_t::close();
 	}
 
@@ -84,7 +88,12 @@ protected:
 					 file_accessor::file_accessor * fileAccessor);
 
 	inline ~file_stream_base() {
-		close();
+		// If the user knows that the block cannot be written,
+		// do not fail to write it once more.
+		if (m_open && m_flushFailed)
+			discard();
+		else
+			close();
 		delete m_fileAccessor;
 	}
 
@@ -106,6 +115,7 @@ protected:
 		swap(m_block.number,    other.m_block.number);
 		swap(m_block.dirty,     other.m_block.dirty);
 		swap(m_block.data,      other.m_block.data);
+		swap(m_flushFailed,     other.m_flushFailed);
 		swap(m_ownedTempFile,   other.m_ownedTempFile);
 		swap(m_tempFile,        other.m_tempFile);
 	}
@@ -124,6 +134,7 @@ protected:
 		m_block.size = 0;
 		m_block.number = std::numeric_limits<stream_size_type>::max();
 		m_block.dirty = false;
+		m_flushFailed = false;
 		m_block.data = tpie_new_array<char>(m_blockItems * m_itemSize);
 
 		initialize();
@@ -142,7 +153,9 @@ protected:
 		if (m_block.dirty) {
 			assert(m_canWrite);
 			update_vars();
+			m_flushFailed = true;
 			m_fileAccessor->write_block(m_block.data, m_block.number, m_block.size);
+			m_flushFailed = false;
 			if (m_tempFile)
 				m_tempFile->update_recorded_size(m_fileAccessor->byte_size());
 		}
@@ -168,8 +181,30 @@ protected:
 
 
 	block_t m_block;
+	/** Whether the last attempt to write the current block failed. */
+	bool m_flushFailed;
 
 private:
+	void delete_block() {
+		tpie_delete_array(m_block.data, m_itemSize * m_blockItems);
+		m_block.data = 0;
+	}
+
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Close the file without writing the current block and without
+	/// marking the file as properly closed.
+	///////////////////////////////////////////////////////////////////////////
+	void discard() {
+		m_block.dirty = false;
+		delete_block();
+		try {
+			m_fileAccessor->close_unclean();
+		} catch (const std::exception &) {
+			// The error when writing the block is the one to report.
+		}
+		set_closed();
+	}
+
 	friend class stream_crtp<file_stream_base>;
 	file_stream_base & get_file() {return *this;}
 	const file_stream_base & get_file() const {return *this;}
-- 
2.43.0


From 7d630c6021bfef848281d58e1aa873cceb1acb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 32/96] fix: release a serialization writer whose block cannot
 be written

---
 tpie/serialization_stream.cpp | 58 +++++++++++++++++++++++++----------
 tpie/serialization_stream.h   | 13 +++++++-
 2 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 2ee165b..44ada12 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -19,7 +19,9 @@
 
 #include <tpie/serialization_stream.h>
 #include <tpie/array.h>
+#include <tpie/tpie_log.h>
 #include <algorithm>
+#include <exception>
 
 ///////////////////////////////////////////////////////////////////////////////
 // serialization_header {{{
@@ -154,7 +156,12 @@ namespace {
 		~open_guard() {
 			if (!committed) {
 				open_flag = false;
-				fa.close_i();
+				try {
+					fa.close_i();
+				} catch (const tpie::exception & e) {
+					// The exception that made open fail is the one to report.
+					tpie::log_error() << "Error when closing a file: " << e.what() << std::endl;
+				}
 			}
 		}
 	};
@@ -168,6 +175,7 @@ serialization_writer_base::serialization_writer_base()
 	: m_blocksWritten(0)
 	, m_size(0)
 	, m_open(false)
+	, m_failed(false)
 	, m_tempFile(0)
 {
 }
@@ -179,6 +187,7 @@ void serialization_writer_base::open_inner(std::string path, bool reverse) {
 	open_guard guard(m_open, m_fileAccessor);
 	m_blocksWritten = 0;
 	m_size = 0;
+	m_failed = false;
 
 	bits::serialization_header header(m_fileAccessor);
 	header.set_reverse(reverse);
@@ -199,24 +208,30 @@ void serialization_writer_base::open(temp_file & tempFile, bool reverse) {
 
 void serialization_writer_base::write_block(const char * const s, const memory_size_type n) {
 	assert(n <= block_size());
+	if (m_failed) throw io_exception("An earlier write to the stream has failed");
+	m_failed = true;
 	stream_size_type offset = m_blocksWritten * block_size();
 	m_fileAccessor.seek_i(bits::serialization_header::header_size() + offset);
 	m_fileAccessor.write_i(s, n);
 	++m_blocksWritten;
 	m_size = offset + n;
+	m_failed = false;
 	if (m_tempFile)
 		m_tempFile->update_recorded_size(m_size);
 }
 
 void serialization_writer_base::close(bool reverse) {
 	if (!m_open) return;
+	open_guard guard(m_open, m_fileAccessor);
+	m_tempFile = 0;
+	if (m_failed) return;
 	bits::serialization_header header(m_fileAccessor);
 	header.set_size(m_size);
 	header.set_reverse(reverse);
 	header.write(true);
-	m_fileAccessor.close_i();
+	guard.commit();
 	m_open = false;
-	m_tempFile = 0;
+	m_fileAccessor.close_i();
 }
 
 stream_size_type serialization_writer_base::file_size() {
@@ -254,10 +269,16 @@ void serialization_writer::open(temp_file & tempFile) {
 }
 
 void serialization_writer::close() {
-	if (m_index > 0) write_block();
+	std::exception_ptr error;
+	try {
+		if (m_index > 0 && !failed()) write_block();
+	} catch (...) {
+		error = std::current_exception();
+	}
 	m_block.resize(0);
 	m_index = 0;
 	p_t::close(false);
+	if (error) std::rethrow_exception(error);
 }
 
 serialization_reverse_writer::serialization_reverse_writer()
@@ -291,10 +312,17 @@ void serialization_reverse_writer::open(temp_file & tempFile) {
 }
 
 void serialization_reverse_writer::close() {
-	if (m_index > 0) write_block();
+	std::exception_ptr error;
+	try {
+		if (m_index > 0 && !failed()) write_block();
+	} catch (...) {
+		error = std::current_exception();
+	}
 	m_block.resize(0);
 	m_index = 0;
+	m_serializationBuffer.resize(0);
 	p_t::close(true);
+	if (error) std::rethrow_exception(error);
 }
 
 namespace bits {
@@ -331,18 +359,19 @@ void serialization_reader_base::read_block(const stream_size_type blk) {
 	stream_size_type from = blk * block_size();
 	stream_size_type to = std::min(from + block_size(), m_size);
 	if (to <= from) throw end_of_stream_exception();
-	m_index = 0;
-	m_blockSize = to-from;
 	m_fileAccessor.seek_i(bits::serialization_header::header_size()
 						  + from);
-	m_fileAccessor.read_i(m_block.get(), m_blockSize);
+	// If this fails, the current block has still been read to its end.
+	m_fileAccessor.read_i(m_block.get(), to-from);
+	m_index = 0;
+	m_blockSize = to-from;
 }
 
 void serialization_reader_base::close() {
 	if (!m_open) return;
-	m_fileAccessor.close_i();
 	m_open = false;
 	m_block.resize(0);
+	m_fileAccessor.close_i();
 }
 
 stream_size_type serialization_reader_base::file_size() {
@@ -356,12 +385,9 @@ stream_size_type serialization_reader_base::size() {
 } // namespace bits
 
 void serialization_reader::next_block() /*override*/ {
-	if (m_blockSize == 0) {
-		m_blockNumber = 0;
-	} else {
-		++m_blockNumber;
-	}
-	read_block(m_blockNumber);
+	stream_size_type blockNumber = (m_blockSize == 0) ? 0 : m_blockNumber + 1;
+	read_block(blockNumber);
+	m_blockNumber = blockNumber;
 }
 
 serialization_reader::serialization_reader()
@@ -388,8 +414,8 @@ stream_size_type serialization_reader::offset() {
 void serialization_reverse_reader::next_block() /*override*/ {
 	if (m_blockNumber == 0)
 		throw end_of_stream_exception();
+	read_block(m_blockNumber - 1);
 	--m_blockNumber;
-	read_block(m_blockNumber);
 	std::reverse(m_block.begin(), m_block.begin() + m_blockSize);
 }
 
diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index f0674c9..e764018 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -48,6 +48,8 @@ private:
 	stream_size_type m_blocksWritten;
 	stream_size_type m_size;
 	bool m_open;
+	/** Whether writing a block has failed since the stream was opened. */
+	bool m_failed;
 
 	temp_file * m_tempFile;
 
@@ -68,11 +70,19 @@ protected:
 	///
 	/// \param s  Memory area with data to write.
 	/// \param n  Number of bytes to write.
+	///
+	/// If this fails, no more blocks can be written.
 	///////////////////////////////////////////////////////////////////////////
 	void write_block(const char * const s, const memory_size_type n);
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Close the stream. It is only marked as properly closed if all
+	/// blocks were written.
+	///////////////////////////////////////////////////////////////////////////
 	void close(bool reverse);
 
+	bool failed() const { return m_failed; }
+
 public:
 	static memory_size_type memory_usage() { return block_size(); }
 
@@ -183,7 +193,8 @@ public:
 			std::copy(s, s + n, data.data() + offs);
 		}
 
-		~serializer() {
+		// This throws if a block cannot be written.
+		~serializer() noexcept(false) {
 			std::vector<char> & data = wr.m_serializationBuffer;
 			const memory_size_type n = data.size();
 			const char * const s = data.data();
-- 
2.43.0


From c9a156c938483f76067312a4d5eeeed9e0ee4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 33/96] fix: delete all run files of a serialization sorter
 after an I/O error

---
 tpie/serialization_sorter.h | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 13fe8e0..66b8bc1 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -313,9 +313,9 @@ public:
 
 	void open_new_writer() {
 		if (m_writerOpen) throw exception("open_new_writer: Writer already open");
+		m_writerOpen = true;
 		m_writer.open(run_file(m_nextFileOffset++));
 		m_currentWriterByteSize = m_writer.file_size();
-		m_writerOpen = true;
 	}
 
 	void write(const T & v) {
@@ -377,9 +377,9 @@ public:
 		if (m_readersOpen == 0) throw exception("close_readers_and_delete: no readers open");
 
 		for (size_t i = 0; i < m_readersOpen; ++i) {
-			decrease_usage(m_fileOffset + i, m_readers[i].file_size());
 			m_readers[i].close();
 			std::filesystem::remove(run_file(m_fileOffset + i));
+			decrease_usage(m_fileOffset + i, m_readers[i].file_size());
 		}
 		m_fileOffset += m_readersOpen;
 		m_readersOpen = 0;
@@ -392,23 +392,37 @@ public:
 	}
 
 	void reset() {
-		if (m_readersOpen > 0) {
-			log_debug() << "reset: Close readers" << std::endl;
-			close_readers_and_delete();
+		// After an I/O error, there may be readers left that were not counted in
+		// m_readersOpen, and the last run file may be incomplete.
+		// All run files are deleted nevertheless.
+		for (size_t i = 0; i < m_readers.size(); ++i) {
+			try {
+				m_readers[i].close();
+			} catch (const tpie::exception & e) {
+				log_error() << "Error when closing a run file: " << e.what() << std::endl;
+			}
 		}
+		m_readersOpen = 0;
 		m_readers.resize(0);
+		const bool lastIncomplete = m_writerOpen;
 		if (m_writerOpen) {
 			log_debug() << "reset: Close writer" << std::endl;
-			close_writer();
+			m_writerOpen = false;
+			try {
+				m_writer.close();
+			} catch (const tpie::exception & e) {
+				log_error() << "Error when closing a run file: " << e.what() << std::endl;
+			}
 		}
 		log_debug() << "Remove " << m_fileOffset << " through " << m_nextFileOffset << std::endl;
 		for (size_t i = m_fileOffset; i < m_nextFileOffset; ++i) {
 			std::string runFile = run_file(i);
-			serialization_reader rd;
-			rd.open(runFile);
-			decrease_usage(i, rd.file_size());
-			rd.close();
-			std::filesystem::remove(runFile);
+			std::error_code ec;
+			const stream_size_type size = std::filesystem::file_size(runFile, ec);
+			// Only complete run files are included in the usage
+			if (!ec && !(lastIncomplete && i + 1 == m_nextFileOffset))
+				decrease_usage(i, size);
+			std::filesystem::remove(runFile, ec);
 		}
 		m_fileOffset = m_nextLevelFileOffset = m_nextFileOffset = 0;
 	}
-- 
2.43.0


From 56f80ea4ed087897528128316a5be1e249e143f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 34/96] fix: do not terminate when temporary streams, stacks
 and sorters are destroyed after an I/O error

---
 tpie/compressed/stream_base.cpp  | 5 ++++-
 tpie/pipelining/merge_sorter.cpp | 2 +-
 tpie/pipelining/merge_sorter.h   | 2 ++
 tpie/priority_queue.inl          | 4 ++++
 tpie/stack.h                     | 7 +++++++
 5 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 0975a9b..058c1e8 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -806,11 +806,14 @@ compressed_stream_base::compressed_stream_base(memory_size_type itemSize,
 }
 
 compressed_stream_base::~compressed_stream_base() {
+	// A temporary file that was not closed properly is either deleted
+	// or rejected when it is opened again, so the error does not go unnoticed.
+	const bool isTemporary = m_p->m_tempFile != NULL;
 	try {
 		close();
 	} catch (std::exception & e) {
 		log_error() << "Someone threw an error in file_stream::~file_stream: " << e.what() << std::endl;
-		abort();
+		if (!isTemporary) abort();
 	}
 	delete m_p;
 	// non-trivial field destructors:
diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index 87578cd..560181d 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -29,7 +29,7 @@ run_positions::run_positions()
 }
 
 run_positions::~run_positions() {
-	close();
+	// The streams are closed by their destructors, which do not throw.
 }
 
 /*static*/ memory_size_type run_positions::memory_usage() noexcept {
diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index 37788ba..fb7aff1 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -575,6 +575,7 @@ private:
 		m_currentRunItemCount = 0;
 		for (memory_size_type i = 0; i < itemCount; ++i)
 			fs.write(m_store.store_to_element(std::move(m_currentRunItems[i])));
+		fs.close();
 		++m_finishedRuns;
 	}
 
@@ -662,6 +663,7 @@ private:
 			pi.step();
 			out.write(m_store.store_to_element(m_merger.pull()));
 		}
+		out.close();
 		return nextRunNumber;
 	}
 
diff --git a/tpie/priority_queue.inl b/tpie/priority_queue.inl
index 9db8370..ad37ab3 100644
--- a/tpie/priority_queue.inl
+++ b/tpie/priority_queue.inl
@@ -677,6 +677,7 @@ void priority_queue<T, Comparator, OPQType>::fill_group_buffer(group_type group)
 			}
 		}
 
+		out.close();
 	}
 
 	//restore mergebuffer
@@ -754,6 +755,8 @@ void priority_queue<T, Comparator, OPQType>::empty_group(group_type group) {
 				heap.pop_and_push(data[current_slot-group*setting_k]->read(), current_slot);
 			}
 		}
+
+		newstream.close();
 	}
 
 #ifndef TPIE_NDEBUG
@@ -1034,6 +1037,7 @@ void priority_queue<T, Comparator, OPQType>::write_slot(slot_type slotid, T* arr
 	file_stream<T> data(block_factor);
 	data.open(slot_data(slotid));
 	data.write(arr+0, arr+len);
+	data.close();
 	slot_start_set(slotid, 0);
 	slot_size_set(slotid, len);
 	if(current_r == 0 && slotid < setting_k) {
diff --git a/tpie/stack.h b/tpie/stack.h
index 5360d84..e813dc0 100644
--- a/tpie/stack.h
+++ b/tpie/stack.h
@@ -47,6 +47,7 @@ public:
 		: m_stream(blockFactor)
 		, m_buffer(buffer_size(blockFactor))
 		, m_bufferItems(0)
+		, m_anonymous(true)
 	{
 		m_stream.open(static_cast<memory_size_type>(0), access_normal,
 					  compression_normal);
@@ -62,6 +63,7 @@ public:
 		: m_stream(blockFactor)
 		, m_buffer(buffer_size(blockFactor))
 		, m_bufferItems(0)
+		, m_anonymous(false)
 	{
 		m_stream.open(path, access_read_write,
 					  static_cast<memory_size_type>(0), access_normal,
@@ -79,6 +81,7 @@ public:
 		: m_stream(blockFactor)
 		, m_buffer(buffer_size(blockFactor))
 		, m_bufferItems(0)
+		, m_anonymous(false)
 	{
 		m_stream.open(tempFile, access_read_write,
 					  static_cast<memory_size_type>(0), access_normal,
@@ -92,6 +95,9 @@ public:
     /// end of the stack.
     ////////////////////////////////////////////////////////////////////
 	~stack() {
+		// The items of an anonymous stack are not needed anymore, and the
+		// stream is not open if the user was told that accessing it failed.
+		if (m_anonymous || !m_stream.is_open()) return;
 		empty_buffer();
 		m_stream.truncate(m_stream.get_position());
 	}
@@ -157,6 +163,7 @@ protected:
 private:
 	array<T> m_buffer;
 	size_t m_bufferItems;
+	bool m_anonymous;
 
 	inline void empty_buffer() {
 		if (m_bufferItems == 0) return;
-- 
2.43.0


From 2eb6f35c9304cfad77ea91b4e88b666b6af905e5 Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 35/96] fix: internal_reverser popped std::stack for its value
 and did not compile

---
 tpie/pipelining/reverse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index bfc0023..89118a3 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -166,7 +166,8 @@ public:
 
 	void go() override {
 		while (!m_stack->empty()) {
-			dest.push(m_stack->pop());
+			dest.push(m_stack->top());
+			m_stack->pop();
 			step();
 		}
 	}
-- 
2.43.0


From d516f46c457ce70273d225ec3c98906a4f5ef13b Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 36/96] fix: range forwarded and reported (from - to) /
 increment items, a wrapped-around count

---
 tpie/pipelining/numeric.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/numeric.h b/tpie/pipelining/numeric.h
index 8459fa1..4aa0f42 100644
--- a/tpie/pipelining/numeric.h
+++ b/tpie/pipelining/numeric.h
@@ -52,8 +52,13 @@ public:
 
 	range_t(dest_t dest, item_type from, item_type to, item_type increment) : from(from), to(to), increment(increment), dest(std::move(dest)) {}
 
-	void propagate() {
-		stream_size_type items = (from - to) / increment;
+	void propagate() override {
+		// The number of items pushed by go()
+		stream_size_type items = 0;
+		if (from < to) {
+			items = static_cast<stream_size_type>((to - from) / increment);
+			if (static_cast<item_type>(from + items * increment) < to) ++items;
+		}
 		set_steps(items);
 		forward("items", items);
 	}
-- 
2.43.0


From f1e4aa323e4140ba1337c46825050cf2eb39fdf4 Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 37/96] fix: input of a closed stream forwarded "items" as an
 int, which nobody can fetch

---
 tpie/pipelining/file_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index aaaf028..f66ee55 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -63,7 +63,7 @@ public:
 			forward("items", fs.size() - fs.offset());
 			set_steps(fs.size() - fs.offset());
 		} else {
-			forward("items", 0);
+			forward("items", static_cast<stream_size_type>(0));
 		}
 	}
 
-- 
2.43.0


From 64a08770ea26502c38ce516b8af512cc9aed64fe Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 38/96] fix: pull_tee was no node and did not compile

---
 tpie/pipelining/file_stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index f66ee55..613427a 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -345,10 +345,11 @@ private:
 };
 
 template <typename source_t, typename T>
-class pull_tee_t {
+class pull_tee_t : public node {
 public:
 	typedef T item_type;
 	pull_tee_t(source_t source, file_stream<item_type> & fs): fs(fs), source(std::move(source)) {
+		add_pull_source(this->source);
 		set_minimum_memory(fs.memory_usage());
 	}
 		
-- 
2.43.0


From ad2664e4cb46afc31f614e9d45215873993a14b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 39/96] fix: a pull node in a virtual_chunk_pull got a push
 edge to its source by default

---
 tpie/pipelining/virtual.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/virtual.h b/tpie/pipelining/virtual.h
index 90d84a1..ed1aa9f 100644
--- a/tpie/pipelining/virtual.h
+++ b/tpie/pipelining/virtual.h
@@ -844,7 +844,7 @@ public:
 		input_type temp(m_input);
 		this->m_nodeMap = temp.get_node_map();
 		fact_t f = std::move(pipe.factory);
-		f.set_destination_kind_push();
+		f.set_destination_kind_pull();
 		m_output = new bits::virtpullsrc_impl<constructed_type, Output>(f.construct(std::move(temp)));
 		this->m_node = bits::virt_node::take_own(m_output);
 		return *this;
-- 
2.43.0


From ee08a63c62add392330d045d329b14746f20027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 40/96] fix: pull_output called begin and end of its source,
 which the runtime does already

---
 tpie/pipelining/file_stream.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index 613427a..a5a37fa 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -315,11 +315,9 @@ public:
 	}
 
 	void go() override {
-		source.begin();
 		while (source.can_pull()) {
 			fs.write(source.pull());
 		}
-		source.end();
 	}
 	
 private:
-- 
2.43.0


From 25dd8bb180c77623854dbf2263aa21ae903979f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 41/96] fix: destroying a pipeline whose begin failed next to a
 parallel section hung or terminated the process

---
 tpie/pipelining/parallel/base.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index cd538da..bcae21e 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -590,11 +590,14 @@ protected:
 	}
 
 	~before() {
-		state_base::lock_t lock(st.mutex);
+		{
+			state_base::lock_t lock(st.mutex);
 
-		auto s = st.get_state(parId);
-		tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
+			auto s = st.get_state(parId);
+			tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
+		}
 
+		// The worker may still need the mutex to see that it is done.
 		if (m_worker.joinable())
 			m_worker.join();
 	}
@@ -665,6 +668,9 @@ private:
 	void worker() {
 		state_base::lock_t lock(st.mutex);
 
+		// Stopped before we got to run.
+		if (st.get_state(parId) == DONE) return;
+
 		m_buffer.reset(new parallel_input_buffer<T>(st.opts));
 		m_inputBuffers[parId] = m_buffer.get();
 
@@ -928,8 +934,6 @@ private:
 	/// even if no exception has been thrown from the main thread.
 	///////////////////////////////////////////////////////////////////////////
 	void stop_workers(state_base::lock_t & lock) {
-		if (st->runningWorkers == 0) return;
-
 		bool done = false;
 		while (!done) {
 			// Force maintainOrder == false to avoid deadlock in case processor p
@@ -964,7 +968,8 @@ private:
 				case DONE:
 					break;
 
-				// If we get an exception before begin() has been called
+				// If we get an exception before begin() has been called,
+				// or before the worker thread has started running
 				case INITIALIZING:
 
 				// If the worker is idle
-- 
2.43.0


From 28bebbddf4a76c8b8f2e53ca0d8177f88608a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 42/96] fix: internal reversers and buffers leaked their items
 when the pipeline failed

---
 tpie/pipelining/internal_buffer.h | 12 +++++++-----
 tpie/pipelining/reverse.h         | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/tpie/pipelining/internal_buffer.h b/tpie/pipelining/internal_buffer.h
index e07efec..82ba3fa 100644
--- a/tpie/pipelining/internal_buffer.h
+++ b/tpie/pipelining/internal_buffer.h
@@ -34,6 +34,7 @@ namespace bits {
 
 template <typename T>
 class internal_buffer_pull_output_t: public node {
+	tpie::unique_ptr<internal_queue<T> > * m_queue_ptr;
 	internal_queue<T> * m_queue;
 public:
 	typedef T item_type;
@@ -45,7 +46,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = fetch<internal_queue<T> *>("queue");
+		m_queue_ptr = fetch<tpie::unique_ptr<internal_queue<T> > *>("queue");
+		m_queue = m_queue_ptr->get();
 	}
 
 	bool can_pull() const {
@@ -59,7 +61,7 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_queue);
+		m_queue_ptr->reset();
 		m_queue=NULL;
 	}
 };
@@ -77,8 +79,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = tpie::tpie_new<internal_queue<item_type> >(size);
-		forward("queue", m_queue, 1);
+		m_queue = tpie::make_unique<internal_queue<item_type> >(size);
+		forward("queue", &m_queue, 1);
 	}
 
 	void push(const T & item) {
@@ -87,7 +89,7 @@ public:
 	}
 
 private:
-	internal_queue<item_type> * m_queue;
+	tpie::unique_ptr<internal_queue<item_type> > m_queue;
 	size_t size;
 };
 
diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index 89118a3..19a0af5 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -83,8 +83,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = tpie_new<std::stack<item_type> >();
-		forward("stack", m_stack, 1);
+		m_stack = make_unique<std::stack<item_type> >();
+		forward("stack", &m_stack, 1);
 	}
 
 	///////////////////////////////////////////////////////////////////////////////
@@ -94,7 +94,7 @@ public:
 		m_stack->push(t);
 	}
 private:
-	std::stack<item_type> * m_stack;
+	tpie::unique_ptr<std::stack<item_type> > m_stack;
 	std::shared_ptr<node> m_output;
 };
 
@@ -159,7 +159,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::unique_ptr<std::stack<item_type> > *>("stack");
+		m_stack = m_stack_ptr->get();
 		forward("items", m_stack->size());
 		set_steps(m_stack->size());
 	}
@@ -173,10 +174,11 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->reset();
 	}
 private:
 	dest_t dest;
+	tpie::unique_ptr<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
@@ -239,7 +241,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::unique_ptr<std::stack<item_type> > *>("stack");
+		m_stack = m_stack_ptr->get();
 		forward("items", m_stack->size());
 	}
 
@@ -260,9 +263,10 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->reset();
 	}
 private:
+	tpie::unique_ptr<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
-- 
2.43.0


From 975a5e0251a1c34f3116b890ba223b9a2af7c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 43/96] fix: steps taken in workers of a parallel section raced
 on the progress indicator of the phase, and outlived it

---
 tpie/pipelining/node.cpp        |  2 ++
 tpie/pipelining/node.h          | 17 +++++++++++++++++
 tpie/pipelining/parallel/base.h | 30 +++++++++++++++++-------------
 tpie/pipelining/runtime.cpp     |  3 ++-
 4 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index bb43ff0..09154e7 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -82,6 +82,7 @@ node::node(node && other)
 	, m_buckets(std::move(other.m_buckets))
 	, m_stepsLeft(std::move(other.m_stepsLeft))
 	, m_pi(std::move(other.m_pi))
+	, m_privateProgress(other.m_privateProgress)
 	, m_state(std::move(other.m_state))
 	, m_plotOptions(std::move(other.m_plotOptions))
 {
@@ -96,6 +97,7 @@ node & node::operator=(node && other) {
 	m_buckets = std::move(other.m_buckets);
 	m_stepsLeft = std::move(other.m_stepsLeft);
 	m_pi = std::move(other.m_pi);
+	m_privateProgress = other.m_privateProgress;
 	m_state = std::move(other.m_state);
 	m_plotOptions = std::move(other.m_plotOptions);
 	return *this;
diff --git a/tpie/pipelining/node.h b/tpie/pipelining/node.h
index ec1db43..03f1e6e 100644
--- a/tpie/pipelining/node.h
+++ b/tpie/pipelining/node.h
@@ -408,6 +408,22 @@ public:
 		m_pi = pi;
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Used internally. Set a progress indicator that the runtime
+	/// does not replace with that of the phase.
+	///////////////////////////////////////////////////////////////////////////
+	void set_private_progress_indicator(progress_indicator_base * pi) {
+		m_pi = pi;
+		m_privateProgress = true;
+	}
+
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Used internally.
+	///////////////////////////////////////////////////////////////////////////
+	bool has_private_progress_indicator() const {
+		return m_privateProgress;
+	}
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Used internally. Get the progress indicator used.
 	///////////////////////////////////////////////////////////////////////////
@@ -807,6 +823,7 @@ private:
 	datastructuremap_t m_datastructures;
 	stream_size_type m_stepsLeft;
 	progress_indicator_base * m_pi;
+	bool m_privateProgress = false;
 	STATE m_state;
 	resource_type m_resourceBeingAssigned = NO_RESOURCE;
 	std::unique_ptr<progress_indicator_base> m_piProxy;
diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index bcae21e..314b59f 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -76,7 +76,7 @@ protected:
 		}
 
 		virtual void init_node(node & r) override {
-			r.set_progress_indicator(t->m_progressIndicators.get(index));
+			r.set_private_progress_indicator(t->m_progressIndicators.get(index));
 		}
 
 		size_t index;
@@ -91,12 +91,8 @@ public:
 		return *m_dests[idx];
 	}
 
-	stream_size_type sum_steps() {
-		stream_size_type res = 0;
-		for (size_t i = 0; i < m_progressIndicators.size(); ++i) {
-			res += m_progressIndicators.get(i)->get_current();
-		}
-		return res;
+	stream_size_type get_steps(size_t idx) {
+		return m_progressIndicators.get(idx)->get_current();
 	}
 
 	virtual ~threads() {}
@@ -797,7 +793,7 @@ private:
 	size_t readyIdx;
 	std::shared_ptr<consumer<T2> > cons;
 	internal_queue<memory_size_type> m_outputOrder;
-	stream_size_type m_steps;
+	std::vector<stream_size_type> m_steps;
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Check if a worker is waiting for the main thread.
@@ -901,11 +897,19 @@ private:
 		// In effect, every time step() is called once in a single worker,
 		// we process this as if all workers called step().
 
-		stream_size_type steps = st->pipes->sum_steps();
-		if (steps != m_steps) {
-			this->get_progress_indicator()->step(st->opts.numJobs*(steps - m_steps));
-			m_steps = steps;
+		//
+		// A worker that is processing may be stepping right now, so its steps
+		// are collected later.
+
+		stream_size_type steps = 0;
+		for (size_t i = 0; i < st->opts.numJobs; ++i) {
+			if (st->get_state(i) == PROCESSING) continue;
+			const stream_size_type s = st->pipes->get_steps(i);
+			steps += s - m_steps[i];
+			m_steps[i] = s;
 		}
+		if (steps != 0)
+			this->get_progress_indicator()->step(st->opts.numJobs*steps);
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -999,7 +1003,7 @@ public:
 		: st(st)
 		, written(0)
 		, cons(new consumer_t(std::move(cons)))
-		, m_steps(0)
+		, m_steps(this->st->opts.numJobs, 0)
 	{
 		for (size_t i = 0; i < st->opts.numJobs; ++i) {
 			this->add_push_destination(st->input(i));
diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 2eee67e..1ff5d8b 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1707,7 +1707,8 @@ void runtime::propagate_all(const graph<node *> & itemFlow) {
 void runtime::set_progress_indicators(const std::vector<node *> & phase,
 									  progress_indicator_base & pi) {
 	for (size_t i = 0; i < phase.size(); ++i)
-		phase[i]->set_progress_indicator(&pi);
+		if (!phase[i]->has_private_progress_indicator())
+			phase[i]->set_progress_indicator(&pi);
 }
 
 void runtime::go_initiators(const std::vector<node *> & phase) {
-- 
2.43.0


From 3585915b8641e7de0bccad80ddd1aa7020da28e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 44/96] fix: truncating a temporary stream and choosing a
 compression raced with the compressor thread

---
 tpie/compressed/stream_base.cpp | 17 +++++++++++++++--
 tpie/compressed/thread.cpp      |  6 ++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 058c1e8..db18836 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -416,6 +416,19 @@ public:
 	}
 
 
+	///////////////////////////////////////////////////////////////////////////
+	/// Blocks to take the compressor lock.
+	///
+	/// The compressor thread records the size of the temporary file as well
+	/// when it writes a block.
+	///////////////////////////////////////////////////////////////////////////
+	void update_recorded_size() {
+		if (!m_tempFile) return;
+		compressor_thread_lock l(compressor());
+		wait_for_pending_requests(l);
+		m_tempFile->update_recorded_size(m_byteStreamAccessor.file_size());
+	}
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Truncate to zero size.
 	///////////////////////////////////////////////////////////////////////////
@@ -1210,7 +1223,7 @@ void compressed_stream_base::truncate(stream_size_type offset) {
 	m_p->m_damaged = false;
 	closeOnFail.commit();
 	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
+	m_p->update_recorded_size();
 }
 
 void compressed_stream_base::truncate(const stream_position & pos) {
@@ -1232,7 +1245,7 @@ void compressed_stream_base::truncate(const stream_position & pos) {
 	m_p->m_damaged = false;
 	closeOnFail.commit();
 	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
+	m_p->update_recorded_size();
 }
 
 stream_position compressed_stream_base::get_position() {
diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 85cd349..0cd920d 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -17,6 +17,7 @@
 // You should have received a copy of the GNU Lesser General Public License
 // along with TPIE.  If not, see <http://www.gnu.org/licenses/>
 
+#include <atomic>
 #include <queue>
 #include <tpie/compressed/thread.h>
 #include <tpie/compressed/request.h>
@@ -253,7 +254,7 @@ private:
 			wr.file_accessor().get_compression_flags() != compression_all;
 		block_header blockHeader;
 		block_header & blockTrailer = blockHeader;
-		compression_scheme::type schemeType = m_preferredCompression;
+		compression_scheme::type schemeType = m_preferredCompression.load();
 		if (adaptiveCompression && !m_idle) {
 			schemeType = compression_scheme::none;
 		}
@@ -324,7 +325,8 @@ private:
 	std::condition_variable m_newRequest;
 	std::condition_variable m_requestDone;
 	bool m_done;
-	compression_scheme::type m_preferredCompression;
+	// Set by any thread; read by the compressor thread without the lock.
+	std::atomic<compression_scheme::type> m_preferredCompression;
 
 	// Whether the thread was idle prior to handling the current request.
 	bool m_idle;
-- 
2.43.0


From f7e5b771d53a68b7ef2eeb52adc3c4bdc7f4f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 45/96] fix: damaged blocks of a compressed stream were taken
 for data

---
 tpie/compressed/scheme_snappy.cpp |  3 ++-
 tpie/compressed/stream_base.cpp   | 34 +++++++++++++++++++------------
 tpie/compressed/thread.cpp        |  7 +++++++
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/tpie/compressed/scheme_snappy.cpp b/tpie/compressed/scheme_snappy.cpp
index c1b702d..1ad5756 100644
--- a/tpie/compressed/scheme_snappy.cpp
+++ b/tpie/compressed/scheme_snappy.cpp
@@ -53,7 +53,8 @@ virtual size_t uncompressed_length(const char * src, size_t srcSize) const overr
 
 virtual void uncompress(char * dest, const char * src, size_t srcSize) const override {
 	tpie::stat_timer t(6); // Time uncompressing
-	snappy::RawUncompress(src, srcSize, dest);
+	if (!snappy::RawUncompress(src, srcSize, dest))
+		throw tpie::stream_exception("snappy::RawUncompress failed; the block is damaged");
 }
 
 };
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index db18836..59da107 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -576,6 +576,24 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Check that the block just read has the items it should have.
+	///////////////////////////////////////////////////////////////////////////
+	void check_block_size(stream_size_type blockNumber, const char * error) {
+		size_t blockItems = m_blockItems;
+		if (m_o->size() - blockNumber * m_blockItems < blockItems) {
+			blockItems = static_cast<size_t>(m_o->size() - blockNumber * m_blockItems);
+		}
+		size_t usableBlockSize = m_buffer->size() / m_itemSize * m_itemSize;
+		size_t expectedBlockSize = blockItems * m_itemSize;
+		if (usableBlockSize != expectedBlockSize) {
+			log_error() << "Expected " << expectedBlockSize << " (" << blockItems
+						<< " items), got " << m_buffer->size() << " (rounded to "
+						<< usableBlockSize << ')' << std::endl;
+			throw exception(error);
+		}
+	}
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Reads next block according to nextReadOffset/nextBlockSize.
 	///
@@ -608,19 +626,8 @@ public:
 			}
 		
 			read_block(lock, readOffset, read_direction::forward);
-			size_t blockItems = m_blockItems;
-			if (m_o->size() - blockNumber * m_blockItems < blockItems) {
-				blockItems = static_cast<size_t>(m_o->size() - blockNumber * m_blockItems);
-			}
-			size_t usableBlockSize = m_buffer->size() / m_itemSize * m_itemSize;
-			size_t expectedBlockSize = blockItems * m_itemSize;
-			if (usableBlockSize != expectedBlockSize) {
-				log_error() << "Expected " << expectedBlockSize << " (" << blockItems
-							<< " items), got " << m_buffer->size() << " (rounded to "
-							<< usableBlockSize << ')' << std::endl;
-				throw exception("read_next_block: Bad buffer->get_size");
-			}
-		
+			check_block_size(blockNumber, "read_next_block: Bad buffer->get_size");
+
 			// Update m_readOffset, m_nextReadOffset
 			if (use_compression()) {
 				m_readOffset = readOffset;
@@ -651,6 +658,7 @@ public:
 			m_nextReadOffset = m_readOffset + m_buffer->get_block_size();
 		} else {
 			read_block(lock, m_readOffset, read_direction::backward);
+			check_block_size(blockNumber, "read_previous_block: Bad buffer->get_size");
 		
 			// This is backwards since we are reading backwards.
 			// Confusing, I know.
diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 0cd920d..9aa0b2e 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -221,6 +221,13 @@ private:
 			throw exception("Block trailer is different from the block header");
 		}
 
+		switch (blockHeader.get_compression_scheme()) {
+			case compression_scheme::none:
+			case compression_scheme::snappy:
+				break;
+			default:
+				throw exception("Unknown compression scheme in block header");
+		}
 		const compression_scheme & compressionScheme =
 			get_compression_scheme(blockHeader.get_compression_scheme());
 		size_t uncompressedLength = compressionScheme.uncompressed_length(compressed, blockSize);
-- 
2.43.0


From e646517ecaba4fb29d58de1f534ad8c68a8bdb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 46/96] fix: serialized B-trees did not notice I/O errors and
 missing data, and could not be move-assigned

---
 tpie/btree/serialized_store.h | 104 +++++++++++++++++++++++++++-------
 1 file changed, 82 insertions(+), 22 deletions(-)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 0150770..0c692ca 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -24,6 +24,8 @@
 #include <tpie/btree/base.h>
 #include <tpie/tpie_assert.h>
 #include <tpie/serialization2.h>
+#include <tpie/exception.h>
+#include <cerrno>
 #include <cstddef>
 #include <fstream>
 
@@ -76,12 +78,8 @@ public:
 	serialized_store & operator=(const serialized_store & o) = delete;
 	serialized_store(serialized_store && o) = default;
 	
-	serialized_store & operator=(serialized_store && o) {
-		this->~serialized_store();
-		new (this) serialized_store(o);
-		return this;
-	}
-	
+	serialized_store & operator=(serialized_store && o) = default;
+
 private:
 	struct internal_content {
 		off_t offset;
@@ -206,18 +204,33 @@ private:
 
 		auto compression_type = m_flags & btree_flags::compression_mask;
 
+		const size_t max_count = sizeof(i.values) / sizeof(*i.values);
+		i.count = 0;
+
 		if (compression_type == btree_flags::compress_none) {
-			unserialize(d, i.count);
-			unserialize(d, i.values, i.values + i.count);
+			size_t count = 0;
+			unserialize(d, count);
+			if (!d || count > max_count)
+				throw io_exception("Unable to read B-tree node");
+			unserialize(d, i.values, i.values + count);
+			if (!d)
+				throw io_exception("Unable to read B-tree node");
+			i.count = count;
 			return;
 		}
 
-		int32_t uncompressed_size, compressed_size;
+		int32_t uncompressed_size = 0, compressed_size = 0;
 		d.read(reinterpret_cast<char *>(&uncompressed_size), sizeof(uncompressed_size));
 		d.read(reinterpret_cast<char *>(&compressed_size), sizeof(compressed_size));
+		if (!d || compressed_size < 0
+			|| uncompressed_size < (int32_t)sizeof(i.count)
+			|| (size_t)uncompressed_size > sizeof(i.count) + sizeof(i.values))
+			throw io_exception("Unable to read B-tree node");
 
 		std::vector<char> compressed_buffer((size_t)compressed_size);
 		d.read(compressed_buffer.data(), compressed_size);
+		if (!d)
+			throw io_exception("Unable to read B-tree node");
 
 		serilization_buffer uncompressed_buffer((size_t)uncompressed_size);
 
@@ -250,8 +263,43 @@ private:
             throw exception("Unknown compression, this code shouldn't be reachable");
 		}
 
-		unserialize(uncompressed_buffer, i.count);
-		unserialize(uncompressed_buffer, i.values, i.values + i.count);
+		size_t count = 0;
+		unserialize(uncompressed_buffer, count);
+		if (count > max_count || sizeof(count) + count * sizeof(*i.values) > uncompressed_buffer.size())
+			throw io_exception("Unable to read B-tree node");
+		unserialize(uncompressed_buffer, i.values, i.values + count);
+		i.count = count;
+	}
+
+	/**
+	 * \brief Read the node at the given offset of the file
+	 */
+	template <typename N>
+	void read_node(off_t offset, N & n) const {
+		// A previous read may have failed.
+		f->clear();
+		f->seekg(offset);
+		unserialize(*f, n);
+	}
+
+	/**
+	 * \brief Throw if writing to the file has failed. Set errno to 0 before writing.
+	 */
+	void check_write() const {
+		if (*f) return;
+		if (errno == ENOSPC)
+			throw out_of_space_exception("Unable to write B-tree: no space left");
+		throw io_exception("Unable to write B-tree");
+	}
+
+	/**
+	 * \brief The offset at which the next node is written
+	 */
+	off_t position() const {
+		const std::streamoff offset = f->tellp();
+		if (offset < 0)
+			throw io_exception("Unable to write B-tree");
+		return (off_t)offset;
 	}
 
 	struct internal {
@@ -373,7 +421,9 @@ private:
 			memset(&h, 0, sizeof(h));
 			h.flags = flags;
 			set_flags(flags);
+			errno = 0;
 			f->write(reinterpret_cast<char *>(&h), sizeof(h));
+			check_write();
 		} else {
 			f->open(path, std::ios_base::in | std::ios_base::binary);
 			if (!f->is_open())
@@ -389,6 +439,8 @@ private:
 				h.flags = btree_flags::defaults_v0;
 			} else if (h.version == 1) {
 				f->read(reinterpret_cast<char *>(&h.flags), sizeof(h.flags));
+				if (!*f)
+					throw invalid_file_exception("Unable to read header");
 			} else {
 				throw invalid_file_exception("Bad version");
 			}
@@ -403,13 +455,11 @@ private:
 				root_leaf = leaf_type(0);
 			} else if (m_height == 1) {
 				root_leaf = leaf_type(h.root);
-				f->seekg(h.root);
-				unserialize(*f, *root_leaf);
+				read_node(h.root, *root_leaf);
 			} else if (m_height > 1) {
 				root_internal = std::make_shared<internal>();
 				root_internal->my_offset = h.root;
-				f->seekg(h.root);
-				unserialize(*f, *root_internal);
+				read_node(h.root, *root_internal);
 			}
 		}
 	}
@@ -462,14 +512,14 @@ private:
 
 	leaf_type create_leaf() {
 		assert(!current_internal && !current_leaf);
-		current_leaf = leaf_type((off_t)f->tellp());
+		current_leaf = leaf_type(position());
 		return current_leaf;
 	}
 	leaf_type create(leaf_type) {return create_leaf();}
 	internal_type create_internal() {
 		assert(!current_internal && !current_leaf);
 		current_internal = std::make_shared<internal>();
-		current_internal->my_offset = (stream_size_type)f->tellp();
+		current_internal->my_offset = position();
 		return current_internal;
 	}
 	internal_type create(internal_type) {return create_internal();}
@@ -489,16 +539,14 @@ private:
 		internal_type child = std::make_shared<internal>();
 		assert(i < node->count);
 		child->my_offset = node->values[i].offset;
-		f->seekg(child->my_offset);
-		unserialize(*f, *child);
+		read_node(child->my_offset, *child);
 		return child;
 	}
 
 	leaf_type get_child_leaf(internal_type node, size_t i) const {
 		leaf_type child = leaf_type(node->values[i].offset);
 		assert(i < node->count);
-		f->seekg(child->my_offset);
-		unserialize(*f, *child);
+		read_node(child->my_offset, *child);
 		return child;
 	}
 
@@ -548,6 +596,7 @@ private:
 	}
 	
 	void flush() {
+		errno = 0;
 		if (current_internal) {
 			assert(!current_leaf);
 			assert((stream_size_type)f->tellp() == current_internal->my_offset);
@@ -559,6 +608,7 @@ private:
 			serialize(*f, *current_leaf);
 			current_leaf.reset();
 		}
+		check_write();
 	}
 	
 	void finalize_build() {
@@ -581,9 +631,14 @@ private:
 		h.metadata_offset = metadata_offset;
 		h.metadata_size = metadata_size;
 		h.flags = m_flags;
+		errno = 0;
+		// Do not mark the tree as finished before its nodes are written.
+		f->flush();
+		check_write();
 		f->seekp(0);
 		f->write(reinterpret_cast<char *>(&h), sizeof(h));
 		f->close();
+		check_write();
 		
 		f->open(path, std::ios_base::in | std::ios_base::binary);
 		if (!f->is_open())
@@ -593,9 +648,11 @@ private:
 	void set_metadata(const std::string & data) {
 		assert(!current_internal && !current_leaf);
 		assert(f->is_open());
-		metadata_offset = (stream_size_type)f->tellp();
+		metadata_offset = position();
 		metadata_size = data.size();
+		errno = 0;
 		f->write(data.c_str(), data.size());
+		check_write();
 	}
 	
 	std::string get_metadata() {
@@ -603,8 +660,11 @@ private:
 		if (metadata_offset == 0 || metadata_size == 0)
 			return {};
 		std::string data(metadata_size, '\0');
+		f->clear();
 		f->seekg(metadata_offset);
 		f->read(&data[0], metadata_size);
+		if (!*f)
+			throw io_exception("Unable to read B-tree metadata");
 		return data;
 	}
 
-- 
2.43.0


From d70f6e7655a8ff7bf3e74543aacd5c82a6a8263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 47/96] fix: use after free in the path compression of node
 maps

---
 tpie/pipelining/tokens.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/tokens.cpp b/tpie/pipelining/tokens.cpp
index 129001e..1feef5a 100644
--- a/tpie/pipelining/tokens.cpp
+++ b/tpie/pipelining/tokens.cpp
@@ -72,9 +72,10 @@ node_map::ptr node_map::find_authority() {
 	ptr result(i);
 
 	// path compression
-	node_map * j = m_authority.get();
+	// redirecting j may drop the last reference to k
+	ptr j = m_authority;
 	while (j->m_authority) {
-		node_map * k = j->m_authority.get();
+		ptr k = j->m_authority;
 		j->m_authority = result;
 		j = k;
 	}
-- 
2.43.0


From b48caf317adaa56f8164315e65c81fd60dba7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 48/96] fix: nodes lost their registered data structures and
 forwarded values when moved, and asked a usurped node map for the memory of a
 data structure

---
 tpie/pipelining/node.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index 09154e7..d79d99d 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -80,6 +80,9 @@ node::node(node && other)
 	: token(other.token, this)
 	, m_parameters(std::move(other.m_parameters))
 	, m_buckets(std::move(other.m_buckets))
+	, m_forwardedFromHere(std::move(other.m_forwardedFromHere))
+	, m_forwardedToHere(std::move(other.m_forwardedToHere))
+	, m_datastructures(std::move(other.m_datastructures))
 	, m_stepsLeft(std::move(other.m_stepsLeft))
 	, m_pi(std::move(other.m_pi))
 	, m_privateProgress(other.m_privateProgress)
@@ -95,6 +98,9 @@ node & node::operator=(node && other) {
 	token.assign(other.token, this);
 	m_parameters = std::move(other.m_parameters);
 	m_buckets = std::move(other.m_buckets);
+	m_forwardedFromHere = std::move(other.m_forwardedFromHere);
+	m_forwardedToHere = std::move(other.m_forwardedToHere);
+	m_datastructures = std::move(other.m_datastructures);
 	m_stepsLeft = std::move(other.m_stepsLeft);
 	m_pi = std::move(other.m_pi);
 	m_privateProgress = other.m_privateProgress;
@@ -324,7 +330,7 @@ void node::set_datastructure_memory_limits(const std::string & name, memory_size
 }
 
 memory_size_type node::get_datastructure_memory(const std::string & name) {
-	const bits::node_map::datastructuremap_t & structures = get_node_map()->get_datastructures();
+	const bits::node_map::datastructuremap_t & structures = get_node_map()->find_authority()->get_datastructures();
 	bits::node_map::datastructuremap_t::const_iterator i = structures.find(name);
 
 	if(i == structures.end())
-- 
2.43.0


From 62646c24831995efac942874f95fd7425a6e8131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 49/96] fix: nodes of the same two phases could not all share
 memory, and phases depending on each other through shared memory were run

---
 tpie/pipelining/runtime.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 1ff5d8b..527cdac 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1492,7 +1492,12 @@ void runtime::get_phases(const std::map<node *, size_t> & phaseMap,
 
 			// Check if we already have a green edge from fromPhase or to toPhase
 			// If so one of edges can't be satisfied, but all green edges must be satisfied
-			if (greenEdges.find(fromPhase) != greenEdges.end() ||
+			auto green = greenEdges.find(fromPhase);
+			if (green != greenEdges.end() && green->second == toPhase) {
+				// Other nodes of the same two phases share memory too
+				continue;
+			}
+			if (green != greenEdges.end() ||
 				revGreenEdges.find(toPhase) != revGreenEdges.end()) {
 				throw tpie::exception("get_phases: can't satisfy all green edges");
 			}
@@ -1501,6 +1506,14 @@ void runtime::get_phases(const std::map<node *, size_t> & phaseMap,
 		}
 	}
 
+	// Contracting green edges below may hide a cycle they are part of
+	graph<size_t> dependencies;
+	for (const auto & p : blackEdges) dependencies.add_edge(p.first, p.second);
+	for (const auto & p : redEdges) dependencies.add_edge(p.first, p.second);
+	for (const auto & p : greenEdges) dependencies.add_edge(p.first, p.second);
+	if (!dependencies.check_acyclical())
+		throw tpie::exception("get_phases: the phases depend on each other");
+
 	disjoint_sets<size_t> contractedNodes(phaseGraph.size());
 	for (size_t i : phaseGraph.get_node_set()) {
 		contractedNodes.make_set(i);
-- 
2.43.0


From 25ff45825212dbf94fc994b2a4587d78df8bcad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 50/96] fix: merge_heap_ptr_op::extract_min used members that
 do not exist

---
 tpie/mergeheap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/mergeheap.h b/tpie/mergeheap.h
index 1fe76a1..d8467d9 100644
--- a/tpie/mergeheap.h
+++ b/tpie/mergeheap.h
@@ -97,8 +97,8 @@ namespace tpie {
 			/// delete_min_and_insert().
 			///////////////////////////////////////////////////////////////////////////
 			void extract_min(REC& el, size_t& run_id) {
-				el=*pq.top().ptr;
-				run_id=*pq.top().run_id();
+				el=*pq.top().recptr;
+				run_id=pq.top().run_id;
 				pq.pop();
 			}
 			
-- 
2.43.0


From 0894a878c3578addbb43237cbbab8c7b0fe7d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 51/96] fix: the key type of tiny::map and tiny::multimap was
 their value type

---
 tpie/tiny.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 52f7c6e..15709bf 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -701,7 +701,7 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> > >
-using multimap = set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
+using multimap = set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
 
 /**
  * \brief A std::map compatible map, useful when we do not have many elements (less then 512)
@@ -710,9 +710,9 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> >
-		  > class map: public set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
+		  > class map: public set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
 private:
-	typedef set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
+	typedef set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
 public:
 
 	map() {}
-- 
2.43.0


From 7973338769303533a91e6e5109d2b57e03d51a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:20 +0000
Subject: [PATCH 52/96] fix: tiny::map copied instead of moving and could not
 be assigned

---
 tpie/tiny.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 15709bf..302a7a1 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -720,7 +720,7 @@ public:
 	explicit map(const Alloc & alloc) : P(alloc) {}
 	map(const map & other) : P(other) {}
 	map(const map & other, const Alloc & alloc) : P(other, alloc) {}
-	map(map && other) : P(other) {}
+	map(map && other) : P(std::move(other)) {}
 	map(map && other, const Alloc & alloc) : P(std::move(other), alloc) {}
 	template< class InputIterator >
 	map(InputIterator first, InputIterator last,
@@ -730,6 +730,9 @@ public:
 		const Comp& comp = Comp(),
 		const Alloc& alloc = Alloc()) : P(init, comp, alloc) {}
 
+	map & operator=(const map & other) = default;
+	map & operator=(map && other) = default;
+	
 	//using P::P; we must explicity copy the constructors until VS supports this
 		
 	/**
-- 
2.43.0


From fe5893883468727fc4ce74c6626417a7548f8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 53/96] fix: assigning an array to itself lost its elements

---
 tpie/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/array.h b/tpie/array.h
index 5142951..70d281c 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -212,6 +212,7 @@ public:
 	/// \return A reference to this array.
 	///////////////////////////////////////////////////////////////////////////
 	array & operator=(const array & other) {
+		if (this == &other) return *this;
 		resize(other.size());
 		for (size_t i=0; i < size(); ++i) m_elements[i] = other[i];
 		return *this;
-- 
2.43.0


From d52d86fd07570b40f1a8ea601e9de5156360f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 54/96] fix: an array whose resize failed kept a pointer to
 freed memory, and failed copies leaked

---
 tpie/array.h | 73 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 10 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 70d281c..aa6ec97 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -493,7 +493,12 @@ public:
 			destruct_and_dealloc();
 			m_size = size;
 
-			alloc_fill(elm);
+			try {
+				alloc_fill(elm);
+			} catch (...) {
+				m_size = 0;
+				throw;
+			}
 		} else {
 			std::fill(m_elements+0, m_elements+m_size, elm);
 		}
@@ -521,7 +526,12 @@ public:
 	void resize(size_t s) {
 		destruct_and_dealloc();
 		m_size = s;
-		alloc_dfl();
+		try {
+			alloc_dfl();
+		} catch (...) {
+			m_size = 0;
+			throw;
+		}
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -598,7 +608,12 @@ struct allocator_usage<T, allocator<T> > {
 		if (host.m_allocator.bucket)
 			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
 			
-		std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
+		try {
+			std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
+		} catch (...) {
+			dealloc_unconstructed(host);
+			throw;
+		}
 	}
 
 	static void alloc_fill(array<T, allocator<T> > & host, const T & elm) {
@@ -609,7 +624,12 @@ struct allocator_usage<T, allocator<T> > {
 			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
 		
 		// call copy constructors manually
-		std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
+		try {
+			std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
+		} catch (...) {
+			dealloc_unconstructed(host);
+			throw;
+		}
 	}
 
 	static void alloc_dfl(array<T, allocator<T> > & host) {
@@ -627,6 +647,7 @@ struct allocator_usage<T, allocator<T> > {
 		if (!host.m_tss_used) {
 			// calls destructors
 			tpie_delete_array(host.m_elements, host.m_size);
+			host.m_elements = 0;
 			return;
 		}
 
@@ -635,6 +656,15 @@ struct allocator_usage<T, allocator<T> > {
 			host.m_elements[i].~T();
 		}
 		tpie_delete_array(reinterpret_cast<trivial_same_size<T>*>(host.m_elements), host.m_size);
+		host.m_elements = 0;
+	}
+
+	static void dealloc_unconstructed(array<T, allocator<T> > & host) {
+		if (host.m_allocator.bucket)
+			host.m_allocator.bucket->count -= sizeof(T) * host.m_size;
+
+		tpie_delete_array(reinterpret_cast<trivial_same_size<T>*>(host.m_elements), host.m_size);
+		host.m_elements = 0;
 	}
 };
 
@@ -642,22 +672,37 @@ template <typename T, typename Allocator>
 struct allocator_usage {
 	static void alloc_copy(array<T, Allocator> & host, const T * copy_from) {
 		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, copy_from[i]);
+		size_t i = 0;
+		try {
+			for (; i < host.m_size; ++i)
+				host.m_allocator.construct(host.m_elements+i, copy_from[i]);
+		} catch (...) {
+			undo(host, i);
+			throw;
 		}
 	}
 
 	static void alloc_fill(array<T, Allocator> & host, const T & elm) {
 		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, elm);
+		size_t i = 0;
+		try {
+			for (; i < host.m_size; ++i)
+				host.m_allocator.construct(host.m_elements+i, elm);
+		} catch (...) {
+			undo(host, i);
+			throw;
 		}
 	}
 
 	static void alloc_dfl(array<T, Allocator> & host) {
 		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i);
+		size_t i = 0;
+		try {
+			for (; i < host.m_size; ++i)
+				host.m_allocator.construct(host.m_elements+i);
+		} catch (...) {
+			undo(host, i);
+			throw;
 		}
 	}
 
@@ -666,6 +711,14 @@ struct allocator_usage {
 			host.m_allocator.destroy(host.m_elements+i);
 		}
 		host.m_allocator.deallocate(host.m_elements, host.m_size);
+		host.m_elements = 0;
+	}
+
+	static void undo(array<T, Allocator> & host, size_t constructed) {
+		while (constructed > 0)
+			host.m_allocator.destroy(host.m_elements + --constructed);
+		host.m_allocator.deallocate(host.m_elements, host.m_size);
+		host.m_elements = 0;
 	}
 };
 
-- 
2.43.0


From 9ff9ef5a39b30c2c80ee8a30674fd4b46036c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 55/96] fix: std::copy over reverse iterators of an array
 copied nothing or the wrong way

---
 tpie/array.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index aa6ec97..7da2fc1 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -767,11 +767,11 @@ void swap(tpie::array<T> & a, tpie::array<T> & b) {
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT1, bool forward1, typename TT2, bool forward2>
-tpie::array_iter_base<TT2, forward2>
-copy(tpie::array_iter_base<TT1, forward1> first,
-     tpie::array_iter_base<TT1, forward1> last,
-	 tpie::array_iter_base<TT2, forward2> d_first) {
+template <typename TT1, typename TT2>
+tpie::array_iter_base<TT2, true>
+copy(tpie::array_iter_base<TT1, true> first,
+     tpie::array_iter_base<TT1, true> last,
+	 tpie::array_iter_base<TT2, true> d_first) {
 
 	ptrdiff_t dist = copy(&*first, &*last, &*d_first) - &*d_first;
 	return d_first + dist;
@@ -780,10 +780,10 @@ copy(tpie::array_iter_base<TT1, forward1> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as input.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename OutputIterator>
+template <typename TT, typename OutputIterator>
 OutputIterator
-copy(tpie::array_iter_base<TT, forward> first,
-     tpie::array_iter_base<TT, forward> last,
+copy(tpie::array_iter_base<TT, true> first,
+     tpie::array_iter_base<TT, true> last,
 	 OutputIterator d_first) {
 
 	return copy(&*first, &*last, d_first);
@@ -792,11 +792,11 @@ copy(tpie::array_iter_base<TT, forward> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as output.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename InputIterator>
-tpie::array_iter_base<TT, forward>
+template <typename TT, typename InputIterator>
+tpie::array_iter_base<TT, true>
 copy(InputIterator first,
 	 InputIterator last,
-	 tpie::array_iter_base<TT, forward> d_first) {
+	 tpie::array_iter_base<TT, true> d_first) {
 
 	ptrdiff_t dist = copy(first, last, &*d_first) - &*d_first;
 	return d_first + dist;
-- 
2.43.0


From 5d71f55004a2b3dfec9fa971b557ed5ecb79489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 56/96] fix: a refused allocation stayed counted as used, and a
 file over the limit was opened before it was refused

---
 tpie/file_accessor/posix.inl | 3 ++-
 tpie/file_accessor/stdio.inl | 8 +++++++-
 tpie/file_accessor/win32.inl | 6 +++---
 tpie/resource_manager.cpp    | 1 +
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index d92d611..b0501f7 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -107,11 +107,12 @@ inline stream_size_type posix::file_size_i() {
 }
 
 void posix::_open(const std::string & path, int flags, mode_t mode = 0755) {
+	get_file_manager().increment_open_file_count();
 	m_fd = ::open(path.c_str(), flags, mode);
 	if (m_fd == -1) {
+		get_file_manager().decrement_open_file_count();
 		return;
 	}
-	get_file_manager().increment_open_file_count();
 	give_advice();
 }
 
diff --git a/tpie/file_accessor/stdio.inl b/tpie/file_accessor/stdio.inl
index 96be854..aba66c6 100644
--- a/tpie/file_accessor/stdio.inl
+++ b/tpie/file_accessor/stdio.inl
@@ -98,7 +98,13 @@ void stdio::open(const std::string & path,
 			write_header(false);
 		}
 	}
-	get_file_manager().increment_open_file_count();
+	try {
+		get_file_manager().increment_open_file_count();
+	} catch (...) {
+		::fclose(m_f);
+		m_f = nullptr;
+		throw;
+	}
 	setvbuf(m_f, NULL, _IONBF, 0);
 }
 
diff --git a/tpie/file_accessor/win32.inl b/tpie/file_accessor/win32.inl
index a604284..aa5439b 100644
--- a/tpie/file_accessor/win32.inl
+++ b/tpie/file_accessor/win32.inl
@@ -89,10 +89,10 @@ void win32::set_cache_hint(cache_hint cacheHint) {
 }
 
 void win32::_open(const std::string & path, DWORD access, DWORD create_mode) {
-	m_fd = CreateFileA(path.c_str(), access, shared_flags, 0, create_mode, m_creationFlag, 0);
-	if (m_fd == INVALID_HANDLE_VALUE) return;
-
 	get_file_manager().increment_open_file_count();
+	m_fd = CreateFileA(path.c_str(), access, shared_flags, 0, create_mode, m_creationFlag, 0);
+	if (m_fd == INVALID_HANDLE_VALUE)
+		get_file_manager().decrement_open_file_count();
 }
 
 void win32::open_wo(const std::string & path) {
diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index 49a54cd..b966191 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -57,6 +57,7 @@ void resource_manager::register_increased_usage(size_t amount) {
 	case ENFORCE_THROW: {
 		size_t usage = m_used.fetch_add(amount) + amount;
 		if (usage > m_limit && m_limit > 0) {
+			m_used.fetch_sub(amount);
 			std::stringstream ss;
 			print_resource_complaint(ss, amount, usage);
 			throw_out_of_resource_error(ss.str());
-- 
2.43.0


From 6c64e799d03dbc55dec2fc81b83a487929c10117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 57/96] fix: the sorted array of an overflow heap that is not
 full was reported as full

---
 tpie/pq_overflow_heap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pq_overflow_heap.inl b/tpie/pq_overflow_heap.inl
index 188a2ea..88573c0 100644
--- a/tpie/pq_overflow_heap.inl
+++ b/tpie/pq_overflow_heap.inl
@@ -64,7 +64,7 @@ inline T* pq_overflow_heap<T, Comparator>::sorted_array() {
 
 template<typename T, typename Comparator>
 inline memory_size_type pq_overflow_heap<T, Comparator>::sorted_size() const{
-	return maxsize;
+	return h.size();
 }
 
 template<typename T, typename Comparator>
-- 
2.43.0


From b8ac7ff99ad2bca6ecfb9ff8f69bf246e754654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 58/96] fix: tiny::multiset and tiny::multimap ignored their
 comparator when inserting

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 302a7a1..234716e 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -106,8 +106,8 @@ struct MultiInsertHelp {
 		typedef iterator result;
 		
 		template <typename Comp>
-		static result handle(Inner & inner, const Comp &) {
-			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back());
+		static result handle(Inner & inner, const Comp & comp) {
+			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back(), comp);
 			std::rotate(y, inner.end()-1, inner.end());
 			return y;
 		}
-- 
2.43.0


From 18fbe2485628350365dc8641b64ec9c471b20ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 59/96] fix: erasing a range from a tiny container returned an
 iterator to its beginning

---
 tpie/tiny.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 234716e..58f2b96 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -315,9 +315,7 @@ public:
 	 * last removed element.
 	 */
 	iterator erase(iterator first, iterator last) {
-		std::rotate(first, last, inner.end());
-		inner.resize(size() - (last-first));
-		return begin();
+		return inner.erase(first, last);
 	}
 
 	/**
-- 
2.43.0


From cd74e1081de16f41ea2062cb95e9d927d2556d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 60/96] fix: < and >= of tiny containers compared by another
 order than <= and >

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 58f2b96..a533f03 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -520,7 +520,7 @@ public:
 	 * less than the contents of rhs, false otherwise.
 	 */
 	friend bool operator<(const set_impl & lhs, const set_impl & rhs) {
-		return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), lhs.comp);
+		return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
 	}
 
 	/**
@@ -545,7 +545,7 @@ public:
 	 * greater than or equal the contents of rhs, false otherwise.
 	 */
 	friend bool operator>=(const set_impl & lhs, const set_impl & rhs) {
-		return !std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), lhs.comp);
+		return !std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
 	}
 
 	/**
-- 
2.43.0


From 947f19dc0b4d69629982aaa69d383d8d0968eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 61/96] fix: subtracting from an iterator of a packed array
 added instead

---
 tpie/packed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 567d806..3de2e9d 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -64,7 +64,7 @@ public:
 	CT operator+(difference_type n) const {CT x=self(); return x += n;}
 	CT operator-(difference_type n) const {CT x=self(); return x -= n;}
 	CT & operator+=(difference_type n) {self().index() += (forward?n:-n); return self();}
-	CT & operator-=(difference_type n) {self().index() += (forward?n:-n); return self();}
+	CT & operator-=(difference_type n) {self().index() -= (forward?n:-n); return self();}
 	RT operator[](difference_type n) {return *(self() + n);}
 };
 
-- 
2.43.0


From 0d19838103f2ddabca625eeadf1b32bbcce7cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 62/96] fix: a packed array whose resize failed kept a pointer
 to freed memory

---
 tpie/packed_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 3de2e9d..df436be 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -353,8 +353,11 @@ public:
 	void resize(size_t s) {
 		if (s == m_size) return;
 		tpie_delete_array(m_elements, words(m_size));
+		m_elements = nullptr;
+		m_size = 0;
+		if (s == 0) return;
+		m_elements = tpie_new_array<storage_type>(words(s));
 		m_size = s;
-		m_elements = m_size?tpie_new_array<storage_type>(words(m_size)):nullptr;
 	}
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From 7d204c5a916aa5ac948c144c764d23fc3dcd4813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 63/96] fix: packed arrays of 32 and 64 bits per element lost
 their elements

---
 tpie/packed_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index df436be..201c2a0 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -125,7 +125,7 @@ private:
 	/// \brief Mask that will extract the lowest order logical element.
 	///////////////////////////////////////////////////////////////////////////
 	static storage_type mask() {
-		return (1 << B)-1;
+		return ~static_cast<storage_type>(0) >> (sizeof(storage_type) * 8 - B);
 	}
 
 	template <bool forward>
@@ -368,7 +368,7 @@ public:
 	void fill(T value) {
 		storage_type x=0;
 		for (size_t i=0; i < perword(); ++i) 
-			x = (x << B) + ((storage_type)value & mask());
+			x |= ((storage_type)value & mask()) << (B*i);
 		for (size_t i=0; i < words(m_size); ++i)
 			m_elements[i] = x;		
 	}
-- 
2.43.0


From 2364a27982e615db18917dfee0e547bf23a04c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:48 +0000
Subject: [PATCH 64/96] fix: assigning through iterators of packed arrays moved
 the iterator instead

---
 tpie/packed_array.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 201c2a0..a9201e9 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -153,6 +153,10 @@ private:
 			*p = (*p & ~(mask()<<i)) | ((b & mask()) << i);
 	 		return *this;
 		}
+		iter_return_type(const iter_return_type &) = default;
+		iter_return_type & operator=(const iter_return_type & o) {
+			return *this = static_cast<T>(o);
+		}
 	};
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From 0a34697081405de002428ac68130482316d9f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:05 +0000
Subject: [PATCH 65/96] fix: a sorter could outlive the node that held its
 memory bucket when a pipeline failed

---
 tpie/pipelining/merge_sorter.cpp |  4 ++--
 tpie/pipelining/merge_sorter.h   |  2 +-
 tpie/pipelining/node.h           |  4 ++--
 tpie/serialization_sorter.h      | 12 ++++++------
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index 560181d..e2b067e 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -252,10 +252,10 @@ void merge_sorter_base::set_items(stream_size_type n) {
 
 void merge_sorter_base::set_owner(tpie::pipelining::node * n) {
 	if (m_owning_node != nullptr)
-		m_bucketPtr = std::move(m_owning_node->bucket(0));
+		m_owning_node->bucket(0).reset();
 	
 	if (n != nullptr)
-		n->bucket(0) = std::move(m_bucketPtr);
+		n->bucket(0) = m_bucketPtr;
 	
 	m_owning_node = n;
 }
diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index fb7aff1..0a60288 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -339,7 +339,7 @@ protected:
 	const linear_memory_usage m_fanout_memory_usage;
     const memory_size_type m_item_size, m_element_file_stream_memory_usage;
 	
-	std::unique_ptr<memory_bucket> m_bucketPtr;
+	std::shared_ptr<memory_bucket> m_bucketPtr;
 	memory_bucket_ref m_bucket;
 
 	array<temp_file> m_runFiles;
diff --git a/tpie/pipelining/node.h b/tpie/pipelining/node.h
index 03f1e6e..6afe796 100644
--- a/tpie/pipelining/node.h
+++ b/tpie/pipelining/node.h
@@ -791,7 +791,7 @@ public:
 	///////////////////////////////////////////////////////////////////////////////
 	/// \brief Access a memory bucket
 	///////////////////////////////////////////////////////////////////////////////
-	std::unique_ptr<memory_bucket> & bucket(size_t i) {
+	std::shared_ptr<memory_bucket> & bucket(size_t i) {
 		if (m_buckets.size() <= i) m_buckets.resize(i+1);
 		if (!m_buckets[i]) m_buckets[i].reset(new memory_bucket());
 		return m_buckets[i];
@@ -815,7 +815,7 @@ private:
 	node_token token;
 
 	node_parameters m_parameters;
-	std::vector<std::unique_ptr<memory_bucket> > m_buckets;
+	std::vector<std::shared_ptr<memory_bucket> > m_buckets;
 	
 	std::map<std::string, any_noncopyable> m_forwardedFromHere;
 	std::map<std::string, node_token::id_t> m_forwardedToHere;
diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 66b8bc1..613e6d7 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -519,9 +519,9 @@ public:
 private:
 	enum sorter_state { state_initial, state_1, state_2, state_3 };
 
-	std::unique_ptr<memory_bucket> m_buffer_bucket_ptr;
+	std::shared_ptr<memory_bucket> m_buffer_bucket_ptr;
 	memory_bucket_ref m_buffer_bucket;
-	std::unique_ptr<memory_bucket> m_item_bucket_ptr;
+	std::shared_ptr<memory_bucket> m_item_bucket_ptr;
 	memory_bucket_ref m_item_bucket;
 	pipelining::node * m_owning_node;
 
@@ -668,13 +668,13 @@ public:
 
 	void set_owner(pipelining::node * n) {
 		if (m_owning_node != nullptr) {
-			m_buffer_bucket_ptr = std::move(m_owning_node->bucket(0));
-			m_item_bucket_ptr = std::move(m_owning_node->bucket(1));
+			m_owning_node->bucket(0).reset();
+			m_owning_node->bucket(1).reset();
 		}
 
 		if (n != nullptr) {
-			n->bucket(0) = std::move(m_buffer_bucket_ptr);
-			n->bucket(1) = std::move(m_item_bucket_ptr);
+			n->bucket(0) = m_buffer_bucket_ptr;
+			n->bucket(1) = m_item_bucket_ptr;
 		}
 
 		m_owning_node = n;
-- 
2.43.0


From 9e44b5f86e632f54dac65a85d298e97947d707a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 66/96] fix: a failed pipeline with a named output that cannot
 be written terminated the process

---
 tpie/pipelining/file_stream.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index a5a37fa..75659f0 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -26,6 +26,7 @@
 #include <tpie/pipelining/factory_helpers.h>
 #include <tpie/pipelining/pipe_base.h>
 #include <tpie/maybe.h>
+#include <tpie/tpie_log.h>
 #include <tpie/flags.h>
 
 namespace tpie::pipelining {
@@ -279,6 +280,19 @@ public:
 		set_minimum_memory(file_stream<T>::memory_usage());
 	}
 
+	named_output_t(named_output_t &&) = default;
+
+	~named_output_t() {
+		// The run failed before end(). If the stream cannot be closed,
+		// its file is not marked as closed and will not be opened again.
+		if (!fs.is_constructed()) return;
+		try {
+			fs->close();
+		} catch (const std::exception & e) {
+			log_error() << "Could not close " << path << ": " << e.what() << std::endl;
+		}
+	}
+
 	void begin() override {
 		fs.construct();
 		fs->open(path, access_write);
-- 
2.43.0


From 55b12d6dc026621974bc8f0277330860f9f3854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 67/96] fix: progress subindicators did not close their log
 groups in release builds

---
 tpie/progress_indicator_subindicator.cpp | 2 +-
 tpie/tpie_log.cpp                        | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 560f330..e9c982c 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -156,10 +156,10 @@ void progress_indicator_subindicator::done() {
 	softassert(m_init_called);
 	softassert(!m_done_called);
 	m_done_called=true;
+#endif
 
 	if(m_logGroupMode == log_group_mode::enabled)
 		end_log_group();
-#endif
 	if (!m_crumb.empty() && m_parent) m_parent->pop_breadcrumb();
 	progress_indicator_base::done();
 	m_current = m_range; 
diff --git a/tpie/tpie_log.cpp b/tpie/tpie_log.cpp
index fd93c32..2e1ce60 100644
--- a/tpie/tpie_log.cpp
+++ b/tpie/tpie_log.cpp
@@ -59,6 +59,7 @@ void tpie::file_log_target::begin_group(const std::string & name) {
 
 void tpie::file_log_target::end_group() {
 	if(LOG_DEBUG > m_threshold) return;
+	if(groups.empty()) return; // the group was begun before we became a target
 
 	m_out << build_prefix(groups.size()-1) << "x " << "Leaving " << groups.top() << std::endl;
 	groups.pop();
@@ -101,6 +102,7 @@ void tpie::stderr_log_target::begin_group(const std::string & name) {
 
 void tpie::stderr_log_target::end_group() {
 	if(LOG_DEBUG > m_threshold) return;
+	if(groups.empty()) return; // the group was begun before we became a target
 
 	std::string text = "Leaving " + groups.top() + "\n";
 	std::string prefix = build_prefix(groups.size()-1) + "x ";
-- 
2.43.0


From ce0f1e82bdd1bbba363191c86a527d4f44ff95c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 68/96] fix: a moved progress subindicator forgot its parent

---
 tpie/progress_indicator_subindicator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index e9c982c..46398dc 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -35,6 +35,10 @@ void progress_indicator_subindicator::pop_breadcrumb() {
 progress_indicator_subindicator::progress_indicator_subindicator()
 	: progress_indicator_base(0)
 	, m_parent(nullptr)
+	, m_outerRange(0)
+	, m_oldValue(0)
+	, m_importance(IMPORTANCE_MAJOR)
+	, m_logGroupMode(log_group_mode::enabled)
 #ifndef TPIE_NDEBUG
 	, m_init_called(false)
 	, m_done_called(false)
@@ -73,9 +77,9 @@ progress_indicator_subindicator::progress_indicator_subindicator(progress_indica
 #endif
 {
 #ifndef TPIE_NDEBUG
-	m_init_called = false;
+	o.m_init_called = false;
 #endif
-	m_parent = nullptr;
+	o.m_parent = nullptr;
 }
 
 progress_indicator_subindicator & progress_indicator_subindicator::operator=(progress_indicator_subindicator && o) {
@@ -88,7 +92,7 @@ progress_indicator_subindicator & progress_indicator_subindicator::operator=(pro
 	std::swap(m_logGroupMode, o.m_logGroupMode);
 #ifndef TPIE_NDEBUG
 	std::swap(m_init_called, o.m_init_called);
-	std::swap(m_done_called, m_done_called);
+	std::swap(m_done_called, o.m_done_called);
 #endif
 	return *this;
 }
-- 
2.43.0


From 4deb6134f3999a2f09c0556842471e5af7c7af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 69/96] fix: progress indicators did not initialize or move
 their count of remaining steps

---
 tpie/progress_indicator_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpie/progress_indicator_base.cpp b/tpie/progress_indicator_base.cpp
index 89e7845..8e37b9f 100644
--- a/tpie/progress_indicator_base.cpp
+++ b/tpie/progress_indicator_base.cpp
@@ -31,6 +31,7 @@ struct progress_indicator_base::refresh_impl {
 progress_indicator_base::progress_indicator_base(stream_size_type range)
 	: m_range(range)
 	, m_current(0)
+	, m_remainingSteps(0)
 	, m_predictor(nullptr)
 {
 	m_refreshImpl = new progress_indicator_base::refresh_impl;
@@ -39,6 +40,7 @@ progress_indicator_base::progress_indicator_base(stream_size_type range)
 progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 	: m_range(o.m_range)
 	, m_current(o.m_current)
+	, m_remainingSteps(o.m_remainingSteps)
 	, m_predictor(o.m_predictor)
 	, m_refreshImpl(o.m_refreshImpl) {
 	o.m_predictor = nullptr;
@@ -48,6 +50,7 @@ progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 progress_indicator_base & progress_indicator_base::operator=(progress_indicator_base&& o) {
 	std::swap(m_range, o.m_range);
 	std::swap(m_current, o.m_current);
+	std::swap(m_remainingSteps, o.m_remainingSteps);
 	std::swap(m_predictor, o.m_predictor);
 	std::swap(m_refreshImpl, o.m_refreshImpl);
 	return *this;
-- 
2.43.0


From 19ea21bfffc8d2e3ceacaa0be6e66743280e9d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 70/96] fix: progress indicators crashed on long titles, short
 lengths and empty ranges

---
 tpie/progress_indicator_arrow.h    | 6 ++++--
 tpie/progress_indicator_terminal.h | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/tpie/progress_indicator_arrow.h b/tpie/progress_indicator_arrow.h
index c74fec4..ef16cd0 100644
--- a/tpie/progress_indicator_arrow.h
+++ b/tpie/progress_indicator_arrow.h
@@ -82,7 +82,9 @@ namespace tpie {
 	    //  Compute the relative length of the arrow.
 		//std::cout << "refresh " << m_description << std::endl;
 
-		memory_size_type l = m_indicatorLength - 12  - m_title.size();
+		// Leave room for at least the head of the arrow.
+		memory_size_type l = (m_indicatorLength > 12 + m_title.size()) ?
+			m_indicatorLength - 12 - m_title.size() : 1;
 		memory_size_type progress = (m_range != 0) ?
 			static_cast<memory_size_type>(l * m_current / m_range) : 0;
 
@@ -105,7 +107,7 @@ namespace tpie {
 			status << std::string(l-progress-1, ' ');
 			status << "] ";
 
-			status << m_current * 100 / m_range << '%';
+			status << ((m_range != 0) ? m_current * 100 / m_range : 0) << '%';
 
 			for (std::deque<std::string>::iterator i = m_crumbs.begin(); i != m_crumbs.end(); ++i) {
 				if (i == m_crumbs.begin()) status << ' ';
diff --git a/tpie/progress_indicator_terminal.h b/tpie/progress_indicator_terminal.h
index 5b4b17d..5ad965a 100644
--- a/tpie/progress_indicator_terminal.h
+++ b/tpie/progress_indicator_terminal.h
@@ -147,7 +147,7 @@ protected:
 	    //else {
 		//		std::cout << 
 	    //}
-		stream_size_type r = (m_current) * 100 / (m_range);
+		stream_size_type r = (m_range != 0) ? (m_current) * 100 / (m_range) : 0;
 		m_os << r << '%';
 	}
 	
-- 
2.43.0


From f32fb594e412a3f3c541bf7fe219d0e21115ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 71/96] fix: long function names overflowed a buffer in
 fractional progress

---
 tpie/fractional_progress.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tpie/fractional_progress.cpp b/tpie/fractional_progress.cpp
index e485482..0f46920 100644
--- a/tpie/fractional_progress.cpp
+++ b/tpie/fractional_progress.cpp
@@ -141,7 +141,7 @@ inline std::string fname(const char * file, const char * function, const char *
 	for(const char * z=file; *z; ++z)
 		if (*z=='\\' || *z == '/') y=(z+1);
 
-	char f[256];
+	std::string f;
 	{
 		const char * z=function+strlen(function)-1;
 		//Skip nested <> template function arguments emitted by vs
@@ -160,13 +160,10 @@ inline std::string fname(const char * file, const char * function, const char *
 		while (x != function && *x != ':') --x;
 		if (*x == ':') ++x;
 		//Copy result to f removing any whitespace (vs likes to write "operater ()")
-		char * k=f;
 		for(const char * i=x; i != z; ++i) {
 			if (*i == ' ') continue;
-			*k = *i;
-			++k;
+			f += *i;
 		}
-		*k = 0;
 	}	
 	std::string x;
 	x += y;
-- 
2.43.0


From 66a1ab3b06cbe93b83f24c79bdd3607d5de81b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 72/96] fix: an incomplete fraction database could replace a
 complete one

---
 tpie/fractional_progress.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/fractional_progress.cpp b/tpie/fractional_progress.cpp
index 0f46920..47fa9f9 100644
--- a/tpie/fractional_progress.cpp
+++ b/tpie/fractional_progress.cpp
@@ -40,7 +40,7 @@ public:
 	bool dirty;
 	const bool capture;
 
-	inline fraction_db_impl(bool capture) : capture(capture) {
+	inline fraction_db_impl(bool capture) : dirty(false), capture(capture) {
 	}
 
 	void update(std::string name, float frac, stream_size_type n) {
@@ -97,6 +97,9 @@ public:
 
 			for (i_t i=db.begin(); i != db.end(); ++i)
 				f << "tpie::update_fractions(\"" << i->first << "\", " << i->second.first << ", " << i->second.second << ");\n";
+			f.close();
+			// Do not replace a good database by an incomplete one.
+			if (!f) return;
 		}
 		atomic_rename(tmp, path);
 	}
-- 
2.43.0


From 380fe889f8cfac8fc3561fdab7a7bf55208ff9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 73/96] fix: the log file target ignored the size of the
 message

---
 tpie/tpie_log.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpie/tpie_log.cpp b/tpie/tpie_log.cpp
index 2e1ce60..d3e86f2 100644
--- a/tpie/tpie_log.cpp
+++ b/tpie/tpie_log.cpp
@@ -32,16 +32,17 @@ tpie::file_log_target::file_log_target(log_level threshold): m_threshold(thresho
 	m_out.open(m_path.c_str(), std::ios::trunc | std::ios::out);
 }
 
-void tpie::file_log_target::log(log_level level, const char * message, size_t) {
+void tpie::file_log_target::log(log_level level, const char * message, size_t size) {
 	if (level > m_threshold) return;
 
 	if(LOG_DEBUG > level) { // print without indentation
-		m_out << message;
+		m_out.write(message, size);
 		m_out.flush();
 		return;
 	}
 
-	m_out << build_prefix(groups.size()) << " " << message;
+	m_out << build_prefix(groups.size()) << " ";
+	m_out.write(message, size);
 	m_out.flush();
 }
 
-- 
2.43.0


From aa8d5b42e7f4687fc8418a8d78ac0df40e710799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 74/96] fix: a refused resource request could be granted or
 make others fail

With ENFORCE_THROW the request was added to the used amount before it was
compared with the limit. A huge request wrapped around and was granted, and
while a request was being refused, concurrent requests that fit were refused
as well.
---
 tpie/resource_manager.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index b966191..0a3b597 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -55,14 +55,17 @@ void resource_manager::register_increased_usage(size_t amount) {
 		m_used.fetch_add(amount);
 		break;
 	case ENFORCE_THROW: {
-		size_t usage = m_used.fetch_add(amount) + amount;
-		if (usage > m_limit && m_limit > 0) {
-			m_used.fetch_sub(amount);
-			std::stringstream ss;
-			print_resource_complaint(ss, amount, usage);
-			throw_out_of_resource_error(ss.str());
-			throw out_of_resource_error(ss.str());
-		}
+		// A refused request must not be visible in m_used, not even for a
+		// moment, since that could make a concurrent request that fits fail.
+		size_t used = m_used.load();
+		do {
+			if (m_limit > 0 && (used > m_limit || amount > m_limit - used)) {
+				std::stringstream ss;
+				print_resource_complaint(ss, amount, used + amount);
+				throw_out_of_resource_error(ss.str());
+				throw out_of_resource_error(ss.str());
+			}
+		} while (!m_used.compare_exchange_weak(used, used + amount));
 		break; }
 	case ENFORCE_DEBUG:
 	case ENFORCE_WARN: {
-- 
2.43.0


From 11669de23eaddb5e240b4445e3b46605f9c73e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 75/96] fix: tpie::allocator kept a failed allocation in the
 accounts

---
 tpie/memory.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 2f5a5d7..83ddf3c 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -398,9 +398,14 @@ public:
 
     T * allocate(size_t size) {
 		get_memory_manager().register_allocation(size * sizeof(T), typeid(T));
-		if (bucket) bucket->count += size * sizeof(T);
-		T * res = a.allocate(size);
-		return res;
+		try {
+			T * res = a.allocate(size);
+			if (bucket) bucket->count += size * sizeof(T);
+			return res;
+		} catch (...) {
+			get_memory_manager().register_deallocation(size * sizeof(T), typeid(T));
+			throw;
+		}
     }
 
     void deallocate(T * p, size_t n) {
-- 
2.43.0


From 6ec48d55f2aec4f07bdb36bb9f5ddc260f87cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:42 +0000
Subject: [PATCH 76/96] fix: the default extension of temporary files was
 ignored

---
 tpie/tempname.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index a551646..9fdf98b 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -201,8 +201,9 @@ namespace tpie {
 }
 
 std::string tempname::tpie_name(const std::string& post_base, const std::string& dir, const std::string& ext) {
-	if (ext.empty()) return gen_temp(post_base, dir, ".tpie");
-	else return gen_temp(post_base, dir, "." + ext);
+	const std::string & e = ext.empty() ? default_extension : ext;
+	if (e.empty()) return gen_temp(post_base, dir, ".tpie");
+	else return gen_temp(post_base, dir, "." + e);
 }
 
 std::string tempname::tpie_dir_name(const std::string& post_base, const std::string& dir) {
-- 
2.43.0


From cd8e9be0ef6fa0c29d12abe7ab8defca9b59895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:42 +0000
Subject: [PATCH 77/96] fix: a file could become the default directory of
 temporary files

---
 tpie/tempname.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 9fdf98b..f7ecdd0 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -266,6 +266,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 			default_path = path;
 			subdirs.push(""); // signals that the current global subdirectory has not been created yet
 			TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
+			return;
 		}
 
 		default_path = p.string();
-- 
2.43.0


From 8083f8c7a9ce234068fdf39cbf39e73fb459a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:42 +0000
Subject: [PATCH 78/96] fix: the fallback directory for temporary files was not
 used

---
 tpie/tempname.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index f7ecdd0..10ddbb5 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -274,6 +274,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 	} catch (std::filesystem::filesystem_error &) {
 		TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
 		default_path = path; 
+		subdirs.push(""); // signals that the current global subdirectory has not been created yet
 	}	
 }
 
-- 
2.43.0


From b9a02e029e1b0a348dbe70bdaeb79cd74b5df5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:42 +0000
Subject: [PATCH 79/96] fix: user counters were accessed out of bounds

---
 tpie/stats.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/stats.cpp b/tpie/stats.cpp
index 1c36d70..da11665 100644
--- a/tpie/stats.cpp
+++ b/tpie/stats.cpp
@@ -64,11 +64,11 @@ namespace tpie {
 	}
 
 	stream_size_type get_user(size_t i) {
-		return (i < sizeof(user)) ? user[i].load() : 0;
+		return (i < sizeof(user)/sizeof(user[0])) ? user[i].load() : 0;
 	}
 
 	void increment_user(size_t i, stream_size_type delta) {
-		if (i < sizeof(user)) user[i].fetch_add(delta);
+		if (i < sizeof(user)/sizeof(user[0])) user[i].fetch_add(delta);
 	}
 }  //  tpie namespace
 
-- 
2.43.0


From af5510fdf4dfbd923240c28dce64de4cd218f9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:29 +0000
Subject: [PATCH 80/96] fix: a temporary file that cannot be removed terminated
 the program

---
 tpie/tempname.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 10ddbb5..64fd53f 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -306,8 +306,9 @@ temp_file_inner::~temp_file_inner() {
 	if (m_path.empty() || m_persist)
 		return;
 
-	if (std::filesystem::exists(m_path))
-		std::filesystem::remove(m_path);
+	// A destructor must not throw if the file cannot be removed.
+	std::error_code ec;
+	std::filesystem::remove(m_path, ec);
 	update_recorded_size(0);
 }
 
-- 
2.43.0


From 8cf6625c8dce3ecc4e734a59acaeb2827d87ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:58 +0000
Subject: [PATCH 81/96] fix: threads raced to create the directory of temporary
 files

---
 tpie/tempname.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 64fd53f..b214747 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -33,6 +33,7 @@
 #include <tpie/exception.h>
 #include <tpie/file_accessor/file_accessor.h>
 #include <stack>
+#include <mutex>
 #include <random>
 
 #ifdef _WIN32
@@ -53,6 +54,8 @@ std::string default_path;
 std::string default_base_name = "TPIE";
 std::string default_extension;
 std::stack<std::string> subdirs;
+// Worker threads may need temporary files at the same time.
+std::mutex subdirs_mutex;
 
 }
 
@@ -177,6 +180,7 @@ std::string gen_temp(const std::string& post_base, const std::string& dir, const
 		throw tempfile_error("Unable to find free name for temporary file");
 	}
 	else {
+		std::lock_guard<std::mutex> lock(subdirs_mutex);
 		if (subdirs.empty() || subdirs.top().empty()) create_subdir();
 
 		std::filesystem::path p = subdirs.top();
-- 
2.43.0


From 4e9da32c6be714083c70477effd195dc67e7f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 82/96] fix: streams hung after the library had been stopped
 and started again

---
 tpie/compressed/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 9aa0b2e..6fdb256 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -114,7 +114,10 @@ public:
 				m_idle = true;
 				m_newRequest.wait(lock);
 			}
-			if (m_done && m_requests.empty()) break;
+			if (m_done && m_requests.empty()) {
+				m_done = false; // the thread may be started again
+				break;
+			}
 			{
 				compressor_request r = m_requests.front();
 				m_requests.pop();
-- 
2.43.0


From 0e77420e5aff422a15b9708de086c04d63f9d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 83/96] fix: the fraction database stayed when only
 CAPTURE_FRACTIONS was given

---
 tpie/tpie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/tpie.cpp b/tpie/tpie.cpp
index bba9a2e..3a3a2ec 100644
--- a/tpie/tpie.cpp
+++ b/tpie/tpie.cpp
@@ -69,7 +69,7 @@ TPIE_EXPORT void tpie_finish(flags<subsystem> subsystems) {
 	if (subsystems & JOB_MANAGER)
 		finish_job();
 
-    if (subsystems & PROGRESS)  {
+	if (subsystems & (PROGRESS | CAPTURE_FRACTIONS)) {
 		finish_execution_time_db();
 		finish_fraction_db();
 	}
-- 
2.43.0


From 6e85e46f2dd5314a86446b3a75d4f78704000c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:09 +0000
Subject: [PATCH 84/96] fix: decompressing a damaged B-tree node read or wrote
 out of bounds

---
 tpie/btree/serialized_store.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 0c692ca..5525d06 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -222,9 +222,11 @@ private:
 		int32_t uncompressed_size = 0, compressed_size = 0;
 		d.read(reinterpret_cast<char *>(&uncompressed_size), sizeof(uncompressed_size));
 		d.read(reinterpret_cast<char *>(&compressed_size), sizeof(compressed_size));
+		// None of the compression schemes makes the data much larger.
 		if (!d || compressed_size < 0
 			|| uncompressed_size < (int32_t)sizeof(i.count)
-			|| (size_t)uncompressed_size > sizeof(i.count) + sizeof(i.values))
+			|| (size_t)uncompressed_size > sizeof(i.count) + sizeof(i.values)
+			|| (size_t)compressed_size > 2 * (size_t)uncompressed_size + 1024)
 			throw io_exception("Unable to read B-tree node");
 
 		std::vector<char> compressed_buffer((size_t)compressed_size);
@@ -237,8 +239,8 @@ private:
 		switch (m_flags & btree_flags::compression_mask) {
 #ifdef TPIE_HAS_LZ4
 		case compress_lz4: {
-			int r = LZ4_decompress_fast(compressed_buffer.data(), uncompressed_buffer.data(), uncompressed_size);
-			if (r != compressed_size)
+			int r = LZ4_decompress_safe(compressed_buffer.data(), uncompressed_buffer.data(), compressed_size, uncompressed_size);
+			if (r != uncompressed_size)
 				throw io_exception("B-tree decompression failed");
 			break;
 		}
@@ -253,7 +255,10 @@ private:
 #endif
 #ifdef TPIE_HAS_SNAPPY
 		case compress_snappy: {
-			bool ok = snappy::RawUncompress(compressed_buffer.data(), (size_t)compressed_size, uncompressed_buffer.data());
+			size_t r = 0;
+			bool ok = snappy::GetUncompressedLength(compressed_buffer.data(), (size_t)compressed_size, &r)
+				&& r == (size_t)uncompressed_size
+				&& snappy::RawUncompress(compressed_buffer.data(), (size_t)compressed_size, uncompressed_buffer.data());
 			if (!ok)
 				throw io_exception("B-tree decompression failed");
 			break;
-- 
2.43.0


From 851184f29380e489ee406431b0d5556731088e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:50 +0000
Subject: [PATCH 85/96] fix: ami_pull_input_stack made a file stream reader and
 did not compile

---
 tpie/pipelining/ami_glue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/ami_glue.h b/tpie/pipelining/ami_glue.h
index 8d45d70..83615a1 100644
--- a/tpie/pipelining/ami_glue.h
+++ b/tpie/pipelining/ami_glue.h
@@ -157,9 +157,9 @@ ami_input_stack(tpie::ami::stack<T> & input) {
 /// \param fs The ami::stack from which it reads items.
 ///////////////////////////////////////////////////////////////////////////////
 template<typename T>
-inline pullpipe_begin<termfactory<bits::pull_input_t<T>, tpie::ami::stack<T> &> > 
+inline pullpipe_begin<termfactory<bits::ami_pull_input_stack_t<T>, tpie::ami::stack<T> &> > 
 ami_pull_input_stack(tpie::ami::stack<T> & fs) {
-	return termfactory<bits::pull_input_t<T>, tpie::ami::stack<T> &>(fs);
+	return termfactory<bits::ami_pull_input_stack_t<T>, tpie::ami::stack<T> &>(fs);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 03815aa55246befadaf3ea729ce0d4a42315fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:36 +0000
Subject: [PATCH 86/96] fix: connecting an empty end to a virtual chunk
 dereferenced a null pointer

---
 tpie/pipelining/virtual.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/pipelining/virtual.h b/tpie/pipelining/virtual.h
index ed1aa9f..e6a407d 100644
--- a/tpie/pipelining/virtual.h
+++ b/tpie/pipelining/virtual.h
@@ -591,6 +591,7 @@ public:
 			return *bits::assert_types_equal_and_return<Input, Output, virtual_chunk_end<Input> *>
 				::go(&dest);
 		}
+		if (dest.empty()) throw virtual_chunk_missing_end();
 		m_output->set_destination(acc::get_input(dest));
 		return acc::construct<virtual_chunk_end<Input>>(*this, dest);
 	}
@@ -875,6 +876,7 @@ public:
 			return *bits::assert_types_equal_and_return<Input, Output, virtual_chunk_pull_end<Input> *>
 				::go(&dest);
 		}
+		if (dest.empty()) throw virtual_chunk_missing_end();
 		acc::get_input(dest)->set_source(get_output());
 		return acc::construct<virtual_chunk_pull_end<Input>>(*this, dest);
 	}
-- 
2.43.0


From 9d77648745b13bb7086a3d32cd98d351f7320f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 87/96] fix: devirtualizing an empty virtual chunk, or joining
 one, dereferenced a null pointer

---
 tpie/pipelining/virtual.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tpie/pipelining/virtual.h b/tpie/pipelining/virtual.h
index e6a407d..085ce35 100644
--- a/tpie/pipelining/virtual.h
+++ b/tpie/pipelining/virtual.h
@@ -540,6 +540,8 @@ public:
 				  const virtual_chunk_begin<Output> & right)
 		: virtual_chunk_base(left.get_node_map(), bits::virt_node::combine(left.get_node(), right.get_node()))
 	{
+		if (left.empty()) throw virtual_chunk_missing_end();
+		if (right.empty()) throw virtual_chunk_missing_begin();
 		m_input = acc::get_input(left);
 		m_output = acc::get_output(right);
 	}
@@ -828,6 +830,8 @@ public:
 	virtual_chunk_pull(const virtual_chunk_pull_end<Input> & left,
 					   const virtual_chunk_pull_begin<Output> & right)
 		: virtual_chunk_base(left.get_node_map(), bits::virt_node::combine(left.get_node(), right.get_node())) {
+		if (left.empty()) throw virtual_chunk_missing_end();
+		if (right.empty()) throw virtual_chunk_missing_begin();
 		m_input = acc::get_input(left);
 		m_output = acc::get_output(right);
 	}
@@ -1284,6 +1288,7 @@ pipe_end<termfactory<bits::devirtualize_end_node<Input>, virtual_chunk_end<Input
  */
 template <typename Output>
 pipe_begin<tfactory<bits::devirtualize_begin_node, Args<Output>, virtual_chunk_begin<Output>>> devirtualize(const virtual_chunk_begin<Output> & in) {
+	if (in.empty()) throw virtual_chunk_missing_begin();
 	return {in};
 }
 
@@ -1292,6 +1297,7 @@ pipe_begin<tfactory<bits::devirtualize_begin_node, Args<Output>, virtual_chunk_b
  */
 template <typename Input, typename Output>
 pipe_middle<bits::devirtualization_factory<Input, Output>> devirtualize(const virtual_chunk<Input, Output> & mid) {
+	if (mid.empty()) throw virtual_chunk_missing_middle();
 	return {mid};
 }
 
@@ -1300,6 +1306,7 @@ pipe_middle<bits::devirtualization_factory<Input, Output>> devirtualize(const vi
  */
 template <typename Input>
 pullpipe_begin<termfactory<bits::devirtualize_pull_begin_node<Input>, virtual_chunk_pull_begin<Input>>> devirtualize(const virtual_chunk_pull_begin<Input> & out) {
+	if (out.empty()) throw virtual_chunk_missing_begin();
 	return {out};
 }
 
@@ -1308,6 +1315,7 @@ pullpipe_begin<termfactory<bits::devirtualize_pull_begin_node<Input>, virtual_ch
  */
 template <typename Input>
 pullpipe_end<tfactory<bits::devirtualize_pull_end_node, Args<Input>, virtual_chunk_pull_end<Input>>> devirtualize(const virtual_chunk_pull_end<Input> & in) {
+	if (in.empty()) throw virtual_chunk_missing_end();
 	return {in};
 }
 
@@ -1316,6 +1324,7 @@ pullpipe_end<tfactory<bits::devirtualize_pull_end_node, Args<Input>, virtual_chu
  */
 template <typename Input, typename Output>
 pullpipe_middle<bits::devirtualization_pull_factory<Input, Output>> devirtualize(const virtual_chunk_pull<Input, Output> & mid) {
+	if (mid.empty()) throw virtual_chunk_missing_middle();
 	return {mid};
 }
 	
-- 
2.43.0


From 72c1639874a05c212bb18cdecfb7966d1cd0be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:04 +0000
Subject: [PATCH 88/96] fix: siv_dump printed a stray letter after the spatial
 reference

---
 apps/siv_dump/siv_dump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/siv_dump/siv_dump.cpp b/apps/siv_dump/siv_dump.cpp
index 417a517..ed09af7 100644
--- a/apps/siv_dump/siv_dump.cpp
+++ b/apps/siv_dump/siv_dump.cpp
@@ -678,7 +678,7 @@ int main(int argc, char ** argv) {
 
 		std::string sref;
 		unserialize(md, sref);
-		if (c.printHeader) std::cout << "sref " << sref << "\nn";
+		if (c.printHeader) std::cout << "sref " << sref << "\n";
 		
 		box2 box;
 		unserialize(md, box);
-- 
2.43.0


From 1a89e7e87faab24b77f9966c92e6f0102c4f1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:59 +0000
Subject: [PATCH 89/96] fix: convex_hull stopped with an exception on every
 input

---
 apps/convex_hull/convex_hull.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/apps/convex_hull/convex_hull.cpp b/apps/convex_hull/convex_hull.cpp
index cf5aa91..5e9136a 100644
--- a/apps/convex_hull/convex_hull.cpp
+++ b/apps/convex_hull/convex_hull.cpp
@@ -92,7 +92,7 @@ public:
 		add_dependency(pred);
 	}
 
-	virtual void begin() override {
+	virtual void propagate() override {
 		uhTmp = fetch<TP::temp_file *>("uhTmp");
 		lh = fetch<TP::stack<Pt> *>("lh");
 		uh = TP::tpie_new<TP::file_stream<Pt> >();
@@ -159,8 +159,6 @@ public:
 		uhTmp = tpie_new<TP::temp_file>();
 		uh = tpie_new<TP::stack<Pt> >(*uhTmp);
 		lh = tpie_new<TP::stack<Pt> >();
-		forward("uhTmp", uhTmp);
-		forward("lh", lh);
 	}
 
 	void push(Pt pt) {
@@ -176,6 +174,8 @@ public:
 
 	virtual void end() override {
 		TP::tpie_delete(uh);
+		forward("uhTmp", uhTmp);
+		forward("lh", lh);
 	}
 
 private:
@@ -218,7 +218,14 @@ private:
 	}
 };
 
-typedef P::pipe_middle<P::factory<graham_scan_type> > graham_scan_in;
+// The second part depends on the first one, and nothing is pushed to it, so
+// there must be no default edge between the two.
+class graham_scan_factory : public P::factory<graham_scan_type> {
+public:
+	void set_destination_kind_push() {}
+};
+
+typedef P::pipe_middle<graham_scan_factory> graham_scan_in;
 
 
 typedef P::pipe_middle<P::factory<graham_scan_reconstruct_type> > graham_scan_out;
-- 
2.43.0


From e5d902e69159bfff91141e64114c5e2e822202af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 90/96] fix: siv_dump refused trees with multipoints

---
 apps/siv_dump/siv_dump.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/apps/siv_dump/siv_dump.cpp b/apps/siv_dump/siv_dump.cpp
index ed09af7..88d3f5d 100644
--- a/apps/siv_dump/siv_dump.cpp
+++ b/apps/siv_dump/siv_dump.cpp
@@ -277,6 +277,13 @@ void unserialize(S & src, point_vector_item & i) {
 	unserialize(src, i.point);
 }
 
+template <typename S>
+void unserialize(S & src, multipoint_vector_item & i) {
+	using tpie::unserialize;
+	unserialize(src, i.fields);
+	unserialize(src, i.points);
+}
+
 template <typename S>
 void unserialize(S & src, polyline_vector_item & i) {
 	using tpie::unserialize;
@@ -385,6 +392,10 @@ void unserialize(S & src, std::shared_ptr<vector_item> & p) {
 		p=std::make_shared<point_vector_item>();
 		unserialize(src, *static_cast<point_vector_item*>(p.get()));
 		break;
+	case MultiPoint:
+		p=std::make_shared<multipoint_vector_item>();
+		unserialize(src, *static_cast<multipoint_vector_item*>(p.get()));
+		break;
 	case Polyline:
 		p=std::make_shared<polyline_vector_item>();
 		unserialize(src, *static_cast<polyline_vector_item*>(p.get()));
-- 
2.43.0


From 7bba1a60317ef430bab4011488205000ab5755fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:39 +0000
Subject: [PATCH 91/96] fix: siv_dump --recursive crashed on an empty tree

---
 apps/siv_dump/siv_dump.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/siv_dump/siv_dump.cpp b/apps/siv_dump/siv_dump.cpp
index 88d3f5d..90dd111 100644
--- a/apps/siv_dump/siv_dump.cpp
+++ b/apps/siv_dump/siv_dump.cpp
@@ -745,8 +745,10 @@ int main(int argc, char ** argv) {
 			std::cout << "======================================> Items <======================================\n";
 
 		if (c.recursive) {
-			auto node = tree.root();
-			visitNode(node, c);
+			if (!tree.empty()) {
+				auto node = tree.root();
+				visitNode(node, c);
+			}
 		} else {
 			for (const auto & e: tree) {
 				visitItem(e, c);
-- 
2.43.0


From a322e58d1b6a24b4aceebb9ebf6e905279d9e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:11 +0000
Subject: [PATCH 92/96] fix: compressed B-tree nodes with values that are
 larger on disk than in memory were refused

---
 tpie/btree/serialized_store.h | 49 +++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 5525d06..d606408 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -99,7 +99,8 @@ private:
 		serilization_buffer(size_t n) : m_buffer(n) {}
 
 		void read(char * buf, size_t size) {
-			assert(m_index + size <= m_buffer.size());
+			if (size > m_buffer.size() - m_index)
+				throw io_exception("Unable to read B-tree node");
 			memcpy(buf, m_buffer.data() + m_index, size);
 			m_index += size;
 		}
@@ -222,18 +223,53 @@ private:
 		int32_t uncompressed_size = 0, compressed_size = 0;
 		d.read(reinterpret_cast<char *>(&uncompressed_size), sizeof(uncompressed_size));
 		d.read(reinterpret_cast<char *>(&compressed_size), sizeof(compressed_size));
-		// None of the compression schemes makes the data much larger.
+		// None of the compression schemes makes the data much larger. The values
+		// may take more room than they do in memory.
 		if (!d || compressed_size < 0
 			|| uncompressed_size < (int32_t)sizeof(i.count)
-			|| (size_t)uncompressed_size > sizeof(i.count) + sizeof(i.values)
 			|| (size_t)compressed_size > 2 * (size_t)uncompressed_size + 1024)
 			throw io_exception("Unable to read B-tree node");
+		if ((size_t)compressed_size > 1024 * 1024) {
+			// Do not allocate memory for data that is not there.
+			const std::streamoff pos = d.tellg();
+			d.seekg(0, std::ios_base::end);
+			if (d.tellg() - pos < compressed_size)
+				throw io_exception("Unable to read B-tree node");
+			d.seekg(pos);
+		}
 
 		std::vector<char> compressed_buffer((size_t)compressed_size);
 		d.read(compressed_buffer.data(), compressed_size);
 		if (!d)
 			throw io_exception("Unable to read B-tree node");
 
+		// Do not allocate memory for data that does not decompress to that size.
+		switch (m_flags & btree_flags::compression_mask) {
+#ifdef TPIE_HAS_LZ4
+		case compress_lz4:
+			if ((size_t)uncompressed_size / 256 > (size_t)compressed_size)
+				throw io_exception("B-tree decompression failed");
+			break;
+#endif
+#ifdef TPIE_HAS_ZSTD
+		case compress_zstd:
+			if (ZSTD_getFrameContentSize(compressed_buffer.data(), (size_t)compressed_size) != (unsigned long long)uncompressed_size)
+				throw io_exception("B-tree decompression failed");
+			break;
+#endif
+#ifdef TPIE_HAS_SNAPPY
+		case compress_snappy: {
+			size_t r = 0;
+			if (!snappy::GetUncompressedLength(compressed_buffer.data(), (size_t)compressed_size, &r)
+				|| r != (size_t)uncompressed_size)
+				throw io_exception("B-tree decompression failed");
+			break;
+		}
+#endif
+		default:
+			break;
+		}
+
 		serilization_buffer uncompressed_buffer((size_t)uncompressed_size);
 
 		switch (m_flags & btree_flags::compression_mask) {
@@ -255,10 +291,7 @@ private:
 #endif
 #ifdef TPIE_HAS_SNAPPY
 		case compress_snappy: {
-			size_t r = 0;
-			bool ok = snappy::GetUncompressedLength(compressed_buffer.data(), (size_t)compressed_size, &r)
-				&& r == (size_t)uncompressed_size
-				&& snappy::RawUncompress(compressed_buffer.data(), (size_t)compressed_size, uncompressed_buffer.data());
+			bool ok = snappy::RawUncompress(compressed_buffer.data(), (size_t)compressed_size, uncompressed_buffer.data());
 			if (!ok)
 				throw io_exception("B-tree decompression failed");
 			break;
@@ -270,7 +303,7 @@ private:
 
 		size_t count = 0;
 		unserialize(uncompressed_buffer, count);
-		if (count > max_count || sizeof(count) + count * sizeof(*i.values) > uncompressed_buffer.size())
+		if (count > max_count)
 			throw io_exception("Unable to read B-tree node");
 		unserialize(uncompressed_buffer, i.values, i.values + count);
 		i.count = count;
-- 
2.43.0


From 0217f8c2b2656a402819b9f503579931c04feccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:39 +0000
Subject: [PATCH 93/96] fix: siv_dump was aborted after a usage error

---
 apps/siv_dump/siv_dump.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/siv_dump/siv_dump.cpp b/apps/siv_dump/siv_dump.cpp
index 90dd111..3650803 100644
--- a/apps/siv_dump/siv_dump.cpp
+++ b/apps/siv_dump/siv_dump.cpp
@@ -669,6 +669,7 @@ int main(int argc, char ** argv) {
 	}
 	if (arg >= argc || argv[arg][0] == '-') {
 		std::cerr << "Usage siv_dump [--no-header] [--no-items] [--fields] [--geometry] file" << std::endl;
+		tpie::tpie_finish();
 		return 1;
 	}
 	if (!c.printItems) {
-- 
2.43.0


From 6b24dfcd1d5719a48b5d1a57d8d30bf638e3d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:59 +0000
Subject: [PATCH 94/96] fix: unique kept duplicates of the largest number

---
 apps/unique/unique.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/unique/unique.cpp b/apps/unique/unique.cpp
index 28630cc..ac3ab95 100644
--- a/apps/unique/unique.cpp
+++ b/apps/unique/unique.cpp
@@ -27,7 +27,6 @@
 #include <tpie/file_stream.h>
 #include <tpie/sort.h>
 #include <tpie/pipelining.h>
-#include <limits>
 
 // Progress indicators
 #include <tpie/progress_indicator_arrow.h>
@@ -74,6 +73,7 @@ typedef pipe_middle<factory<pair_item_number_augmenter_type> > pair_item_number_
 template <typename dest_t>
 class remove_duplicates_type : public node {
 	dest_t dest;
+	bool first;
 	int last_value;
 public:
 	typedef std::pair<int, int> item_type;
@@ -86,14 +86,15 @@ public:
 	}
 
 	virtual void begin() override {
-		last_value = std::numeric_limits<int>::max();
+		first = true;
 	}
 
 	void push(const item_type & item) {
-		if(last_value != std::numeric_limits<int>::max() && item.first == last_value) // if first component of the last pair is equal to the current one do nothing
+		if(!first && item.first == last_value) // if first component of the last pair is equal to the current one do nothing
 			return;
 
 		// otherwise update last_value and push the pair to the destination node.
+		first = false;
 		last_value = item.first;
 		dest.push(item);
 	}
-- 
2.43.0


From e2c9634642796ff9bc540aceeca9c9786e9f101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:05 +0000
Subject: [PATCH 95/96] fix: sort_manager keeps to the memory limit when little
 memory is left

The memory available was asked for in steps of 5 MiB, so that less than that
counted as none, and the memory for the streams was subtracted without checking
that it is there: the difference wrapped around, and inputs of any size were
read into memory.
---
 tpie/sort_manager.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tpie/sort_manager.h b/tpie/sort_manager.h
index d86b488..cab5aa2 100644
--- a/tpie/sort_manager.h
+++ b/tpie/sort_manager.h
@@ -219,12 +219,18 @@ void sort_manager<T,I,M>::start_sort(){
 	// ********************************************************************
 	    	    
 	// Figure out how much memory we've got to work with.
-	mmBytesAvail = consecutive_memory_available();
+	// The default granularity of some megabytes would leave nothing to us
+	// when there is less than that.
+	mmBytesAvail = consecutive_memory_available(4096);
 	    
 	// Space for internal buffers for the input and output stream may not
 	// have been allocated yet. Query the space usage and subtract.
 	mmBytesPerStream = file_stream<T>::memory_usage(1);
 
+	if (mmBytesAvail < 2 * mmBytesPerStream) {
+		throw stream_exception("Insufficient memory for input and output stream");
+	}
+
 	// This is how much we can use for internal sort if
 	// we are not doing general merge sort
 	mmBytesAvail -= 2 * mmBytesPerStream;
@@ -348,6 +354,10 @@ void sort_manager<T,I,M>::compute_sort_params(void){
 				  << static_cast<TPIE_OS_OUTPUT_SIZE_T>(m_internalSorter->space_per_item ()) << " bytes "
 				  << "for sorting in memory\n");
 	    
+	if (mmBytesAvail < mmBytesPerStream) {
+		throw stream_exception("Insufficient memory for temporary output stream");
+	}
+
 	// Subtract off size of temp output stream
 	// The size of the input stream was already subtracted from
 	// mmBytesAvail
-- 
2.43.0


From f1070e32a202329e72a19fb967a688568d48e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:30 +0000
Subject: [PATCH 96/96] fix: merge_sorter keeps to the memory limit of the last
 phase when the fan-out is large

---
 tpie/pipelining/merge_sorter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index e2b067e..965f3ea 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -331,10 +331,13 @@ void merge_sorter_base::calculate_parameters() {
 	}
 	p.runLength = (p.memoryPhase1 - bits::run_positions::memory_usage() - streamMemory - tempFileMemory)/m_item_size;
 	
-	p.internalReportThreshold = (std::min(p.memoryPhase1,
-										  std::min(p.memoryPhase2,
-												   p.memoryPhase3))
-								 - tempFileMemory)/m_item_size;
+	// The memory for the merge phases need not be enough for the temp_files.
+	// The threshold is also a lower bound on the run length, so it is never 0.
+	memory_size_type internalMemory = std::min(p.memoryPhase1,
+											   std::min(p.memoryPhase2,
+														p.memoryPhase3));
+	internalMemory -= std::min(internalMemory, tempFileMemory);
+	p.internalReportThreshold = std::max<memory_size_type>(internalMemory/m_item_size, 1);
 	if (p.internalReportThreshold > p.runLength)
 		p.internalReportThreshold = p.runLength;
 	
-- 
2.43.0

