From 35273e278fe83d1ab30542d2ad4c25f9e46d8b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 001/131] fix: count all bits of blocks of 4 GiB and more in
 MD5 and SHA-1

---
 include/stdex/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/hash.hpp b/include/stdex/hash.hpp
index 4947ec0..f7a0e2a 100644
--- a/include/stdex/hash.hpp
+++ b/include/stdex/hash.hpp
@@ -89,7 +89,7 @@ namespace stdex
 			// Update number of m_counter[1].
 			if ((m_counter[0] += (static_cast<uint32_t>(length) << 3)) < (static_cast<uint32_t>(length) << 3))
 				m_counter[1]++;
-			m_counter[1] += static_cast<uint32_t>(length) >> 29;
+			m_counter[1] += static_cast<uint32_t>(static_cast<uint64_t>(length) >> 29);
 
 			// Transform as many times as possible.
 			size_t i, remainder = 64 - j;
-- 
2.43.0


From 80a110175b66af1c4c5270f699ec0cbad2c3693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 002/131] fix: wake every thread waiting on a ring for space or
 drain

---
 include/stdex/ring.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index d596437..3b60ed9 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -103,7 +103,7 @@ namespace stdex
 				m_head = wrap(m_head + size);
 				m_size -= size;
 			}
-			m_head_moved.notify_one();
+			m_head_moved.notify_all();
 		}
 
 		///
@@ -115,7 +115,7 @@ namespace stdex
 				const std::lock_guard<std::mutex> lg(m_mutex);
 				m_quit = true;
 			}
-			m_head_moved.notify_one();
+			m_head_moved.notify_all();
 			m_tail_moved.notify_one();
 		}
 
-- 
2.43.0


From 2b7166b4c2842eb20529269689c3a3fc89431de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 003/131] fix: count only whole elements in basic::read_array

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 60a0cdb..8be4ed2 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -381,7 +381,7 @@ namespace stdex
 					if (!to_read)
 						return count;
 					if (!ok()) _Unlikely_
-						return count - to_read / size;
+						return count - (to_read + size - 1) / size;
 					reinterpret_cast<uint8_t*&>(array) += num_read;
 				}
 			}
-- 
2.43.0


From e0aebeef1c2a296bd2f9fb43e452757ee5251eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 004/131] fix: report bytes lost by a short or failed write in
 write_stream

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8be4ed2..a89b4e9 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -567,6 +567,10 @@ namespace stdex
 					size_t num_written = write(data.get(), num_read);
 					num_copied += num_written;
 					to_write -= num_written;
+					if (num_written < num_read) _Unlikely_ {
+						m_state = state_t::fail;
+						break;
+					}
 					if (stream.m_state == state_t::eof) {
 						// EOF is not an error.
 						m_state = state_t::ok;
-- 
2.43.0


From 2ff334cf777b3e4caa4c7e7c5111effaa0973177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 005/131] fix: return the stream from operator >> of vector and
 set, do not preallocate by untrusted length

---
 include/stdex/stream.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index a89b4e9..de766ed 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -477,7 +477,7 @@ namespace stdex
 				read_data(num_chars);
 				if (!ok()) _Unlikely_
 					return *this;
-				data.reserve(num_chars);
+				data.reserve(std::min<size_t>(num_chars, default_block_size));
 				for (;;) {
 					constexpr uint32_t buf_chars = 0x400;
 					T buf[buf_chars];
@@ -703,7 +703,7 @@ namespace stdex
 				*this >> num;
 				if (!ok()) _Unlikely_
 					return *this;
-				data.reserve(num);
+				data.reserve(std::min<size_t>(num, default_block_size / sizeof(T) + 1));
 				for (uint32_t i = 0; i < num; ++i) {
 					T el;
 					*this >> el;
@@ -711,6 +711,7 @@ namespace stdex
 						return *this;
 					data.push_back(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
@@ -740,6 +741,7 @@ namespace stdex
 						return *this;
 					data.insert(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
-- 
2.43.0


From d88ce70e93b2a05fea01ab046ecf7a1a9f598ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 006/131] fix: skip() reports end of stream in the state for
 every amount

---
 include/stdex/stream.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index de766ed..ea42b56 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -147,14 +147,9 @@ namespace stdex
 			///
 			virtual void skip(_In_ fsize_t amount)
 			{
-				if (amount == 1)
-					read_byte();
-				else if (amount < iterate_count) {
-					for (size_t i = 0; i < static_cast<size_t>(amount); i++) {
-						read_byte();
-						if (!ok()) _Unlikely_
-							break;
-					}
+				if (amount < iterate_count) {
+					uint8_t dummy[iterate_count];
+					read_array(dummy, sizeof(uint8_t), static_cast<size_t>(amount));
 				}
 				else {
 					size_t block = static_cast<size_t>(std::min<fsize_t>(amount, default_block_size));
-- 
2.43.0


From 624f139f16cdcb6cdf7e445ef004ccd81a1ed134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 007/131] fix: read_remainder() past the end of file gives
 nothing

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index ea42b56..30a5baa 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -817,7 +817,9 @@ namespace stdex
 		public:
 			virtual std::vector<uint8_t> read_remainder(_In_ size_t max_length = SIZE_MAX)
 			{
-				size_t length = std::min<size_t>(max_length, static_cast<size_t>(size() - tell()));
+				fpos_t start = tell();
+				fsize_t end = size();
+				size_t length = static_cast<size_t>(std::min<fsize_t>(max_length, start < end ? end - start : 0));
 				std::vector<uint8_t> result;
 				try { result.resize(length); }
 				catch (const std::bad_alloc&) {
-- 
2.43.0


From 4b69b704edba3952ea90da7799dd274cb7503d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 008/131] fix: fail the flush of async_writer when the worker
 failed

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 30a5baa..5f0755f 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1361,6 +1361,10 @@ namespace stdex
 			virtual void flush()
 			{
 				m_ring.sync();
+				if (m_source->state() == state_t::fail) _Unlikely_ {
+					m_state = state_t::fail;
+					return;
+				}
 				converter::flush();
 			}
 
-- 
2.43.0


From fda800ff4a4c074b0ba609d9eb782bb1ea9f05e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 009/131] fix: file_window seeks, skips and locks relative to
 its window

---
 include/stdex/stream.hpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 5f0755f..5149c25 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1747,27 +1747,40 @@ namespace stdex
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
 			{
-				m_offset = m_source.seek(offset, how);
+				switch (how) {
+				case seek_t::beg: offset = static_cast<foff_t>(m_region.start) + offset; break;
+				case seek_t::cur: offset = static_cast<foff_t>(m_offset) + offset; break;
+				case seek_t::end: offset = static_cast<foff_t>(m_region.end) + offset; break;
+				default: throw std::invalid_argument("unknown seek origin");
+				}
+				if (offset < static_cast<foff_t>(m_region.start)) _Unlikely_
+					throw std::invalid_argument("negative file offset");
+				fpos_t result = m_source.seek(offset);
 				m_state = m_source.state();
-				return ok() ? m_offset - m_region.start : fpos_max;
+				if (!ok()) _Unlikely_
+					return fpos_max;
+				m_offset = result;
+				return m_offset - m_region.start;
 			}
 
 			virtual void skip(_In_ fsize_t amount)
 			{
 				m_source.skip(amount);
 				m_state = m_source.state();
+				if (ok())
+					m_offset += amount;
 			}
 
 			virtual fpos_t tell() const
 			{
 				fpos_t offset = m_source.tell();
-				return m_region.contains(offset) ? offset - m_region.start : fpos_max;
+				return m_region.start <= offset && offset != fpos_max ? offset - m_region.start : fpos_max;
 			}
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
@@ -1776,8 +1789,8 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
-- 
2.43.0


From 4ae6e325e91fbe9c3adec3c5499734b4559891a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 010/131] fix: check the state of the sink before releasing
 data to flush in async_writer

---
 include/stdex/stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 5149c25..1560581 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1377,8 +1377,9 @@ namespace stdex
 					if (!ptr)
 						break;
 					num_read = m_source->write(ptr, num_read);
+					bool succeeded = m_source->ok(); // After pop(), flush() may be using m_source already.
 					m_ring.pop(num_read);
-					if (!m_source->ok()) {
+					if (!succeeded) {
 						m_ring.quit();
 						break;
 					}
-- 
2.43.0


From 0c611456aab97a9c0ed4f0ed656aa7249682ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 011/131] fix: memory_file reads nothing from beyond its end

---
 include/stdex/stream.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 1560581..f1017bc 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3576,17 +3576,17 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
 #endif
-				size_t available = m_size - m_offset;
+				size_t available = m_offset < m_size ? m_size - m_offset : 0;
+				if (!available) {
+					m_state = length ? state_t::eof : state_t::ok;
+					return 0;
+				}
 				if (length <= available) {
 					memcpy(data, &m_data[m_offset], length);
 					m_offset += length;
 					m_state = state_t::ok;
 					return length;
 				}
-				if (length && !available) {
-					m_state = state_t::eof;
-					return 0;
-				}
 				memcpy(data, &m_data[m_offset], available);
 				m_offset += available;
 				m_state = state_t::ok;
-- 
2.43.0


From 33b518fe5009327b4408ed48ec92bdf81874adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 012/131] fix: memory_file zero-fills the gap when written to
 or truncated beyond its end

---
 include/stdex/stream.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f1017bc..935e255 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3692,6 +3692,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return 0;
 				}
+				fill_gap();
 				memcpy(&m_data[m_offset], data, length);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3714,6 +3715,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return;
 				}
+				fill_gap();
 				memset(&m_data[m_offset], byte, amount);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3749,6 +3751,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				(*reinterpret_cast<T*>(&m_data[m_offset])) = HE2LE(data);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3792,6 +3795,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data, size_chars);
@@ -3837,6 +3841,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data.data(), size_chars);
@@ -3898,9 +3903,12 @@ namespace stdex
 						}
 					};
 				}
-				m_offset = dst_offset;
-				if (m_offset > m_size)
-					m_size = m_offset;
+				if (num_copied) {
+					fill_gap();
+					m_offset = dst_offset;
+					if (m_offset > m_size)
+						m_size = m_offset;
+				}
 				return num_copied;
 			}
 
@@ -3949,8 +3957,11 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
-				m_size = m_offset;
 				reserve(m_offset);
+				if (!ok()) _Unlikely_
+					return;
+				fill_gap();
+				m_size = m_offset;
 			}
 
 #if SET_FILE_OP_TIMES
@@ -4087,6 +4098,14 @@ namespace stdex
 			memory_file& operator <<(_In_ const std::basic_string<T, TR, AX>& data) { return write_str(data); }
 
 		protected:
+			/// \cond internal
+			void fill_gap() noexcept
+			{
+				if (m_size < m_offset)
+					memset(&m_data[m_size], 0, m_offset - m_size);
+			}
+			/// \endcond
+
 			uint8_t* m_data; ///< file data
 			bool m_manage; ///< may reallocate m_data?
 			size_t m_offset; ///< file pointer
-- 
2.43.0


From 98b052b6fbb81c42647c7cc36aea582724a845a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 013/131] fix: cache zero-fills the gap when written beyond the
 end of file

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 935e255..7cebc03 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1964,6 +1964,8 @@ namespace stdex
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
 						if (m_cache.region.start <= m_offset && m_offset < end_max) {
+							if (m_cache.region.end < m_offset)
+								memset(m_cache.data + static_cast<size_t>(m_cache.region.end - m_cache.region.start), 0, static_cast<size_t>(m_offset - m_cache.region.end));
 							size_t remaining_cache = static_cast<size_t>(end_max - m_offset);
 							if (to_write <= remaining_cache) {
 								memcpy(m_cache.data + static_cast<size_t>(m_offset - m_cache.region.start), data, to_write);
-- 
2.43.0


From f1ebb1281d646160ea9798ab0ad102160ae54bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 014/131] fix: cache drops its block when a write bypasses it

---
 include/stdex/stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 7cebc03..ed1deb8 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1982,7 +1982,7 @@ namespace stdex
 							m_cache.status = cache_t::cache_t::status_t::dirty;
 							m_cache.region.end = end_max;
 						}
-						flush_cache();
+						invalidate_cache();
 						if (!ok()) _Unlikely_
 							return length - to_write;
 					}
@@ -1991,6 +1991,7 @@ namespace stdex
 						if (m_offset / m_cache.capacity < end_max / m_cache.capacity) {
 							// Write spans multiple cache blocks. Bypass cache to the last block.
 							m_source->seekbeg(m_offset);
+							m_state = m_source->state();
 							if (!ok()) _Unlikely_
 								return length - to_write;
 							size_t num_written = m_source->write(data, to_write - static_cast<size_t>(end_max % m_cache.capacity));
-- 
2.43.0


From f147817daaf7d5fd9118bf0126ff0b20c38fec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 015/131] fix: cache size counts only the data not written back
 yet

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index ed1deb8..3fdfcbc 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2074,7 +2074,7 @@ namespace stdex
 
 			virtual fsize_t size() const
 			{
-				return m_cache.status != cache_t::cache_t::status_t::empty ?
+				return m_cache.status == cache_t::cache_t::status_t::dirty && !m_cache.region.empty() ?
 					std::max(m_source->size(), m_cache.region.end) :
 					m_source->size();
 			}
-- 
2.43.0


From 0572a0bbc8ae02aae6adc358b55065729b6b5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 016/131] fix: cache reports failed reads, seeks and flushes of
 its source, and copes with short reads

---
 include/stdex/stream.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3fdfcbc..a387d7a 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1943,11 +1943,18 @@ namespace stdex
 					}
 					load_cache(m_offset);
 					if (!ok()) _Unlikely_ {
-						m_state = to_read < length ? state_t::ok : state_t::fail;
+						// Block may not be read completely. Read what we can directly.
+						m_source->seekbeg(m_offset);
+						if (m_source->ok()) {
+							size_t num_read = m_source->read(data, to_read);
+							m_offset += num_read;
+							to_read -= num_read;
+						}
+						m_state = to_read < length ? state_t::ok : m_source->state();
 						return length - to_read;
 					}
 					if (m_cache.region.end <= m_offset) _Unlikely_ {
-						m_state = to_read < length ? state_t::ok : state_t::eof;
+						m_state = to_read < length || !length ? state_t::ok : state_t::eof;
 						return length - to_read;
 					}
 				}
@@ -2027,6 +2034,7 @@ namespace stdex
 				if (!ok()) _Unlikely_
 					return;
 				m_source->flush();
+				m_state = m_source->state();
 			}
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
@@ -2176,21 +2184,25 @@ namespace stdex
 			{
 				stdex_assert(m_cache.status != cache_t::cache_t::status_t::dirty);
 				start -= start % m_cache.capacity; // Align to cache block size.
-				m_source->seekbeg(m_cache.region.start = start);
+				m_cache.status = cache_t::cache_t::status_t::empty;
+				m_source->seekbeg(m_cache.region.start = m_cache.region.end = start);
 				if (m_source->ok()) {
-					m_cache.region.end = start + m_source->read(m_cache.data, m_cache.capacity);
-					m_cache.status = cache_t::cache_t::status_t::loaded;
-					m_state = state_t::ok; // Regardless the read failure, we still might have cached some data.
+					m_cache.region.end = start + m_source->read_array(m_cache.data, sizeof(uint8_t), m_cache.capacity);
+					if (m_source->state() != state_t::fail) {
+						m_cache.status = cache_t::cache_t::status_t::loaded;
+						m_state = state_t::ok;
+						return;
+					}
 				}
-				else
-					m_state = state_t::fail;
+				m_state = state_t::fail;
 			}
 
 			void write_cache()
 			{
 				stdex_assert(m_cache.status == cache_t::cache_t::status_t::dirty);
 				m_source->seekbeg(m_cache.region.start);
-				m_source->write(m_cache.data, static_cast<size_t>(m_cache.region.size()));
+				if (m_source->ok())
+					m_source->write(m_cache.data, static_cast<size_t>(m_cache.region.size()));
 				m_state = m_source->state();
 			}
 
-- 
2.43.0


From 9e811632f72248858f9bc977953b48aefbc8f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 017/131] fix: set file times in seconds

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index a387d7a..7cef7b6 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3077,7 +3077,7 @@ namespace stdex
 				throw std::system_error(GetLastError(), std::system_category(), "SetFileTime failed");
 #else
 				struct timespec ts[2] = {
-					{ date.time_since_epoch().count(), 0 },
+					{ clock::to_time_t(date), 0 },
 					{ 0, UTIME_OMIT },
 				};
 				if (futimens(m_h, ts) >= 0)
@@ -3097,7 +3097,7 @@ namespace stdex
 #else
 				struct timespec ts[2] = {
 					{ 0, UTIME_OMIT },
-					{ date.time_since_epoch().count(), 0 },
+					{ clock::to_time_t(date), 0 },
 				};
 				if (futimens(m_h, ts) >= 0)
 					return;
-- 
2.43.0


From a8c5e174ccb3505de90ce142b5dd8ca1b5773afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 018/131] fix: report failed file lock

---
 include/stdex/stream.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 7cef7b6..669261b 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2917,7 +2917,6 @@ namespace stdex
 						throw std::invalid_argument("file section length too big");
 					m_state = lseek64(m_h, static_cast<off64_t>(offset), SEEK_SET) >= 0 && lockf64(m_h, F_LOCK, static_cast<off64_t>(length)) >= 0 ? state_t::ok : state_t::fail;
 					lseek64(m_h, orig, SEEK_SET);
-					m_state = state_t::ok;
 					return;
 				}
 #endif
-- 
2.43.0


From 47960793755447cddd7a0725a708079ad68ed142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 019/131] fix: release fifo nodes the way they were allocated

---
 include/stdex/stream.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 669261b..4fd4ac4 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4150,7 +4150,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4179,7 +4179,7 @@ namespace stdex
 					to_read -= remaining;
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4188,15 +4188,15 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 				try {
-					std::unique_ptr<node_t> n(reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]));
+					auto n = reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]);
 					n->next = nullptr;
 					n->size = length;
 					memcpy(n->data, data, length);
 					m_size += length;
 					if (m_head)
-						m_tail = m_tail->next = n.release();
+						m_tail = m_tail->next = n;
 					else
-						m_head = m_tail = n.release();
+						m_head = m_tail = n;
 					m_state = state_t::ok;
 					return length;
 				}
@@ -4212,7 +4212,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 				m_state = state_t::ok;
 			}
-- 
2.43.0


From 5bdb9a4d11cc38d386e68d1d04964d035bf4a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 020/131] fix: diag_file without files does not access them

---
 include/stdex/stream.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 4fd4ac4..861af0d 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4346,8 +4346,10 @@ namespace stdex
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->lock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4359,8 +4361,10 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->unlock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4384,8 +4388,10 @@ namespace stdex
 
 			virtual void truncate()
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->truncate();
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
-- 
2.43.0


From ec2804a831f69e2058357ac5ac4a83881d998da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 021/131] fix: open files on a handle with the given state

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 861af0d..6d3780c 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2751,7 +2751,7 @@ namespace stdex
 		class file : virtual public basic_file, virtual public basic_sys
 		{
 		public:
-			file(_In_opt_ sys_handle h = invalid_handle, _In_ state_t state = state_t::ok) : basic_sys(h, state) {}
+			file(_In_opt_ sys_handle h = invalid_handle, _In_ state_t state = state_t::ok) : basic(state), basic_sys(h, state) {}
 
 			///
 			/// Opens file
-- 
2.43.0


From cdb143f31dd822b504fe2d4ef653debb76ee56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 022/131] fix: format strings longer than the stack buffer, and
 of exactly its size, on POSIX

---
 include/stdex/string.hpp | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ac00a05..52e9bc6 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2638,7 +2638,9 @@ namespace stdex
 #else
 		va_list arg_mutable;
 		va_copy(arg_mutable, arg);
-		return ::vsnprintf_l(str, capacity, locale, format, arg_mutable);
+		int count = ::vsnprintf_l(str, capacity, locale, format, arg_mutable);
+		va_end(arg_mutable);
+		return count;
 #endif
 	}
 
@@ -2650,7 +2652,9 @@ namespace stdex
 #else
 		va_list arg_mutable;
 		va_copy(arg_mutable, arg);
-		return ::vswprintf_l(str, capacity, locale, format, arg_mutable);
+		int count = ::vswprintf_l(str, capacity, locale, format, arg_mutable);
+		va_end(arg_mutable);
+		return count;
 #endif
 	}
 	/// \endcond
@@ -2672,7 +2676,7 @@ namespace stdex
 
 		// Try with stack buffer first.
 		int count = vsnprintf(buf, _countof(buf), format, locale, arg);
-		if (0 <= count && static_cast<size_t>(count) <= _countof(buf)) {
+		if (0 <= count && static_cast<size_t>(count) < _countof(buf)) {
 			// Copy from stack.
 			str.append(buf, static_cast<size_t>(count));
 			return static_cast<size_t>(count);
@@ -2696,19 +2700,25 @@ namespace stdex
 #else
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
-			switch (errno) {
-			case EOVERFLOW:
-				// Allocate on heap and retry.
-				str.resize(offset + capacity);
-				count = vsnprintf(&str[offset], capacity, format, locale, arg);
-				if (0 <= count && static_cast<size_t>(count) <= capacity) {
-					str.resize(offset + static_cast<size_t>(count));
-					return static_cast<size_t>(count);
+			if (count >= 0) {
+				// vsnprintf() told the length required.
+				capacity = static_cast<size_t>(count) + 1;
+			}
+			else if (errno != EOVERFLOW) {
+				int err = errno;
+				str.resize(offset);
+				switch (err) {
+				case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
+				case EILSEQ: throw std::runtime_error("encoding error");
+				default: throw std::runtime_error("failed to format string");
 				}
-				break;
-			case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
-			case EILSEQ: throw std::runtime_error("encoding error");
-			default: throw std::runtime_error("failed to format string");
+			}
+			// Allocate on heap and retry.
+			str.resize(offset + capacity);
+			count = vsnprintf(&str[offset], capacity, format, locale, arg);
+			if (0 <= count && static_cast<size_t>(count) < capacity) {
+				str.resize(offset + static_cast<size_t>(count));
+				return static_cast<size_t>(count);
 			}
 		}
 #endif
-- 
2.43.0


From 6fc3fba4df4798f3cc49c4485b4aa50624770cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 023/131] fix: format times to empty strings and in the default
 locale

---
 include/stdex/string.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 52e9bc6..9a02151 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2816,7 +2816,7 @@ namespace stdex
 #ifdef _WIN32
 		return _strftime_l(str, capacity, format, time, locale);
 #else
-		return strftime_l(str, capacity, format, time, locale);
+		return locale ? strftime_l(str, capacity, format, time, locale) : ::strftime(str, capacity, format, time);
 #endif
 	}
 
@@ -2825,7 +2825,7 @@ namespace stdex
 #ifdef _WIN32
 		return _wcsftime_l(str, capacity, format, time, locale);
 #else
-		return wcsftime_l(str, capacity, format, time, locale);
+		return locale ? wcsftime_l(str, capacity, format, time, locale) : ::wcsftime(str, capacity, format, time);
 #endif
 	}
 	/// \endcond
@@ -2843,20 +2843,24 @@ namespace stdex
 	{
 		T buf[1024 / sizeof(T)];
 
+		// strftime() returns 0 when the output is empty and when it does not fit. Have at least one character of output.
+		std::basic_string<T> format_nonempty(format);
+		format_nonempty += static_cast<T>(' ');
+
 		// Try with stack buffer first.
-		size_t count = strftime(buf, _countof(buf), format, time, locale);
+		size_t count = strftime(buf, _countof(buf), format_nonempty.c_str(), time, locale);
 		if (count) {
 			// Copy from stack.
-			str.append(buf, count);
+			str.append(buf, count - 1);
 			return;
 		}
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
 			// Allocate on heap and retry.
 			str.resize(offset + capacity);
-			count = strftime(&str[offset], capacity + 1, format, time, locale);
+			count = strftime(&str[offset], capacity + 1, format_nonempty.c_str(), time, locale);
 			if (count) {
-				str.resize(offset + count);
+				str.resize(offset + count - 1);
 				return;
 			}
 		}
-- 
2.43.0


From 0bb2ec677689deb545cc97b61ad385f8333dfb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 024/131] fix: write buffered data before closing the stream
 below a buffer or an asynchronous writer

---
 include/stdex/stream.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 6d3780c..0c031eb 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1368,6 +1368,15 @@ namespace stdex
 				converter::flush();
 			}
 
+			virtual void close()
+			{
+				m_ring.sync();
+				bool flushed = m_source->state() != state_t::fail;
+				converter::close();
+				if (!flushed) _Unlikely_
+					m_state = state_t::fail; // Data loss occurred
+			}
+
 		protected:
 			void process()
 			{
@@ -1513,6 +1522,17 @@ namespace stdex
 					converter::flush();
 			}
 
+			virtual void close()
+			{
+				flush_write();
+				bool flushed = ok();
+				m_read_buffer.head = m_read_buffer.tail = 0;
+				m_write_buffer.head = m_write_buffer.tail = 0;
+				converter::close();
+				if (!flushed) _Unlikely_
+					m_state = state_t::fail; // Data loss occurred
+			}
+
 		protected:
 			void flush_write()
 			{
-- 
2.43.0


From 453b7a158191392fb84a705ee94cdd70f68b6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 025/131] fix: calculate 64-bit n*k/q without intermediate
 overflow

---
 include/stdex/math.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stdex/math.hpp b/include/stdex/math.hpp
index d513322..30558a4 100644
--- a/include/stdex/math.hpp
+++ b/include/stdex/math.hpp
@@ -123,7 +123,11 @@ namespace stdex
 	///
 	inline constexpr int64_t muldiv(int64_t n, int64_t k, int64_t q)
 	{
-		return n * k / q;
+#ifdef __SIZEOF_INT128__
+		return static_cast<int64_t>(static_cast<__int128>(n) * k / q);
+#else
+		return n / q * k + n % q * k / q;
+#endif
 	}
 
 	///
@@ -137,6 +141,10 @@ namespace stdex
 	///
 	inline constexpr uint64_t muldiv(uint64_t n, uint64_t k, uint64_t q)
 	{
-		return n * k / q;
+#ifdef __SIZEOF_INT128__
+		return static_cast<uint64_t>(static_cast<unsigned __int128>(n) * k / q);
+#else
+		return n / q * k + n % q * k / q;
+#endif
 	}
 }
-- 
2.43.0


From 5608b815b9165fe1455cca38e41b0dcbd2baab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 026/131] fix: rotate by any number of bits, zero included

---
 include/stdex/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/math.hpp b/include/stdex/math.hpp
index 30558a4..30f81a1 100644
--- a/include/stdex/math.hpp
+++ b/include/stdex/math.hpp
@@ -80,7 +80,7 @@ namespace stdex
 #ifdef _WIN32
 		return _rotl(value, bits);
 #else
-		return (value << bits) | (value >> (32 - bits));
+		return (value << (bits & 31)) | (value >> (-bits & 31));
 #endif
 	}
 
-- 
2.43.0


From e54b1f65cbd80fa4440f9c367daa81c6692c9ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 027/131] fix: scale section progress without overflow

---
 include/stdex/progress.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stdex/progress.hpp b/include/stdex/progress.hpp
index 6245c04..2443379 100644
--- a/include/stdex/progress.hpp
+++ b/include/stdex/progress.hpp
@@ -7,9 +7,13 @@
 
 #include "compat.hpp"
 #include "interval.hpp"
+#include "math.hpp"
 #include <atomic>
 #include <chrono>
+#include <mutex>
 #include <shared_mutex>
+#include <stdint.h>
+#include <type_traits>
 #include <vector>
 
 namespace stdex
@@ -316,8 +320,12 @@ namespace stdex
 			if (m_host) {
 				T size = m_local.size();
 				if (size != 0) {
-					// TODO: Implement with muldiv.
-					m_host->set(((value - m_local.start) * m_section.size() / size) + m_section.start);
+					if constexpr (!std::is_integral<T>::value)
+						m_host->set(((value - m_local.start) * m_section.size() / size) + m_section.start);
+					else {
+						using U = typename std::conditional<std::is_signed<T>::value, int64_t, uint64_t>::type;
+						m_host->set(static_cast<T>(muldiv(static_cast<U>(value - m_local.start), static_cast<U>(m_section.size()), static_cast<U>(size))) + m_section.start);
+					}
 				}
 			}
 		}
-- 
2.43.0


From c6c61e418fd9d999cc0c34fabebd61cd92f90b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 028/131] fix: report combined progress of workers in order

---
 include/stdex/progress.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/progress.hpp b/include/stdex/progress.hpp
index 2443379..799af97 100644
--- a/include/stdex/progress.hpp
+++ b/include/stdex/progress.hpp
@@ -424,12 +424,12 @@ namespace stdex
 			///
 			virtual void set_range(_In_ T start, _In_ T end)
 			{
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T
 					combined_start = m_host.m_start += start - m_start,
 					combined_end = m_host.m_end += end - m_end;
 				m_start = start;
 				m_end = end;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set_range(combined_start, combined_end);
 			}
@@ -441,9 +441,9 @@ namespace stdex
 			///
 			virtual void set(_In_ T value)
 			{
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T combined_value = m_host.m_value += value - m_value;
 				m_value = value;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set(combined_value);
 			}
-- 
2.43.0


From 6695d1d381a747d5029a90784398f13d3b0e42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 029/131] fix: push to the front of queues of any capacity

---
 include/stdex/vector_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 007dc29..fb2b344 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -316,7 +316,7 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = v;
@@ -332,7 +332,7 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = std::move(v);
-- 
2.43.0


From 8806ee2159631fe1ee98d29f70ba7a90b8843e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 030/131] fix: release elements replaced when moving, and keep
 them when copying a queue fails

---
 include/stdex/vector_queue.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index fb2b344..56c4470 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -113,17 +113,12 @@ namespace stdex
 		vector_queue<value_type>& operator=(_In_ const vector_queue<value_type> &other)
 		{
 			if (this != std::addressof(other)) {
-				m_head     = other.m_head;
-				m_count    = other.m_count;
-				m_size_max = other.m_size_max;
-
 				// Copy elements.
-				if (m_data) delete [] m_data;
-				m_data = new value_type[other.m_size_max];
-				for (size_type i = 0; i < m_count; i++) {
-					size_type i_l = abs(i);
-					m_data[i_l] =  other.m_data[i_l];
-				}
+				vector_queue<value_type> copy(other);
+				std::swap(m_data    , copy.m_data    );
+				std::swap(m_head    , copy.m_head    );
+				std::swap(m_count   , copy.m_count   );
+				std::swap(m_size_max, copy.m_size_max);
 			}
 
 			return *this;
@@ -137,6 +132,7 @@ namespace stdex
 		vector_queue<value_type>& operator=(_Inout_ vector_queue<value_type> &&other)
 		{
 			if (this != std::addressof(other)) {
+				if (m_data) delete [] m_data;
 				m_data     = std::move(other.m_data    );
 				m_head     = std::move(other.m_head    );
 				m_count    = std::move(other.m_count   );
-- 
2.43.0


From 9a0c9b1f3969e868ed818bbfe61b684f53793179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 031/131] fix: release the storage when copying an element of a
 queue fails

---
 include/stdex/vector_queue.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 56c4470..0d33d7c 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -67,11 +67,11 @@ namespace stdex
 		/// \param[in] other  Queue to copy from
 		///
 		vector_queue(_In_ const vector_queue<value_type> &other) :
-			m_data(new value_type[other.m_size_max]),
-			m_head(other.m_head),
-			m_count(other.m_count),
-			m_size_max(other.m_size_max)
+			vector_queue(other.m_size_max)
 		{
+			m_head  = other.m_head;
+			m_count = other.m_count;
+
 			// Copy elements.
 			for (size_type i = 0; i < m_count; i++) {
 				size_type i_l = abs(i);
-- 
2.43.0


From 6ec0a32737e016df7b484a749f9d3bee983e2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 032/131] fix: count the last bytes of Base64 data read

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 28c1108..836d48d 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -420,9 +420,9 @@ namespace stdex
 				if (m_temp_len < 3 && to_read >= 3) {
 					// If Base64 indicates end of data, truncate read to hint the client, end of Base64 data has been reached.
 					memcpy(data, m_temp + m_temp_off, m_temp_len);
+					to_read -= m_temp_len;
 					m_temp_off = 0;
 					m_temp_len = 0;
-					to_read -= m_temp_len;
 					m_state = stdex::stream::state_t::ok;
 					return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 				}
-- 
2.43.0


From f538f463d4b37f6582cee29bdb1228d9ece88202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 033/131] fix: return number of bytes taken when writing Base64
 fails

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 836d48d..ef3a313 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -205,7 +205,7 @@ namespace stdex
 					encode();
 					if (!m_source->ok()) _Unlikely_ {
 						m_state = m_source->state();
-						return length - i;
+						return i;
 					}
 					m_num = 0;
 				}
-- 
2.43.0


From 29db2a894b7c57b171fd70aa51afc268718dfd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 034/131] fix: write remaining Base64 data before closing the
 stream

---
 include/stdex/base64.hpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index ef3a313..2829573 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -182,14 +182,7 @@ namespace stdex
 
 		virtual ~base64_writer()
 		{
-			// Flush the buffer.
-			if (m_num) {
-				if (++m_num_blocks > m_max_blocks) {
-					*m_source << '\n';
-					m_num_blocks = 1;
-				}
-				encode(m_num);
-			}
+			finish();
 		}
 
 		virtual _Success_(return != 0) size_t write(
@@ -217,7 +210,32 @@ namespace stdex
 			}
 		}
 
+		virtual void close()
+		{
+			bool finished = finish();
+			stdex::stream::converter::close();
+			if (!finished) _Unlikely_
+				m_state = stdex::stream::state_t::fail; // Data loss occurred
+		}
+
 	protected:
+		///
+		/// Encodes and writes remaining data
+		///
+		bool finish()
+		{
+			// Flush the buffer.
+			if (!m_num)
+				return true;
+			if (++m_num_blocks > m_max_blocks) {
+				*m_source << '\n';
+				m_num_blocks = 1;
+			}
+			encode(m_num);
+			m_num = 0;
+			return m_source->ok();
+		}
+
 		///
 		/// Encodes one complete internal buffer of data
 		///
-- 
2.43.0


From 5a139b4684cff71e9f4662271ee0875b09dbecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 035/131] fix: finish compressed stream before closing, and
 release it when finishing fails

---
 include/stdex/zlib.hpp | 51 +++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 1d2ad70..2ce7e72 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -53,30 +53,29 @@ namespace stdex
 		zlib_writer(_Inout_ stdex::stream::basic& source, _In_ int compression_level = Z_BEST_COMPRESSION, _In_ uInt block_size = 0x10000) :
 			stdex::stream::converter(source),
 			m_block_size(block_size),
-			m_block(new Byte[block_size])
+			m_block(new Byte[block_size]),
+			m_finished(false)
 		{
 			memset(&m_zlib, 0, sizeof(m_zlib));
 			throw_on_zlib_error(deflateInit(&m_zlib, compression_level));
 		}
 
-		virtual ~zlib_writer()
+		virtual ~zlib_writer() noexcept(false)
 		{
-			m_zlib.avail_in = 0;
-			m_zlib.next_in = NULL;
-			do {
-				m_zlib.avail_out = m_block_size;
-				m_zlib.next_out = m_block.get();
-				throw_on_zlib_error(deflate(&m_zlib, Z_FINISH));
-				m_source->write(m_block.get(), m_block_size - m_zlib.avail_out);
-				if (!m_source->ok()) _Unlikely_
-					throw std::system_error(sys_error(), std::system_category(), "failed to flush compressed stream"); // Data loss occured
-			} while (m_zlib.avail_out == 0);
-			// m_zlib.avail_out = m_block_size;
-			// m_zlib.next_out = m_block.get();
-			// deflateReset(&m_zlib);
+			try { finish(); }
+			catch (...) {
+				deflateEnd(&m_zlib);
+				throw;
+			}
 			deflateEnd(&m_zlib);
 		}
 
+		virtual void close()
+		{
+			finish();
+			stdex::stream::converter::close();
+		}
+
 		virtual _Success_(return != 0) size_t write(
 			_In_reads_bytes_opt_(length) const void* data, _In_ size_t length)
 		{
@@ -107,10 +106,32 @@ namespace stdex
 			return num_written;
 		}
 
+	protected:
+		///
+		/// Compresses and writes remaining data
+		///
+		void finish()
+		{
+			if (m_finished)
+				return;
+			m_finished = true;
+			m_zlib.avail_in = 0;
+			m_zlib.next_in = NULL;
+			do {
+				m_zlib.avail_out = m_block_size;
+				m_zlib.next_out = m_block.get();
+				throw_on_zlib_error(deflate(&m_zlib, Z_FINISH));
+				m_source->write(m_block.get(), m_block_size - m_zlib.avail_out);
+				if (!m_source->ok()) _Unlikely_
+					throw std::system_error(sys_error(), std::system_category(), "failed to flush compressed stream"); // Data loss occured
+			} while (m_zlib.avail_out == 0);
+		}
+
 	protected:
 		z_stream m_zlib;
 		uInt m_block_size;
 		std::unique_ptr<Byte[]> m_block;
+		bool m_finished; ///< Has compressed stream been finished?
 	};
 
 	///
-- 
2.43.0


From ff534c08da115a8ff98c674b77af669fbb041cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 036/131] fix: stop reading at the end of compressed stream,
 and reject one needing a dictionary

---
 include/stdex/zlib.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 2ce7e72..b8bd495 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -178,7 +178,13 @@ namespace stdex
 							return 0;
 						}
 					}
-					throw_on_zlib_error(inflate(&m_zlib, Z_NO_FLUSH));
+					int result = inflate(&m_zlib, Z_NO_FLUSH);
+					throw_on_zlib_error(result != Z_NEED_DICT ? result : Z_DATA_ERROR);
+					if (result == Z_STREAM_END) {
+						num_read += num_deflated - m_zlib.avail_out;
+						m_state = num_read ? stdex::stream::state_t::ok : stdex::stream::state_t::eof;
+						return num_read;
+					}
 				} while (m_zlib.avail_out);
 				num_read += num_deflated;
 				reinterpret_cast<Bytef*&>(data) += num_deflated;
-- 
2.43.0


From d257d2c580813c63b90b6c1e42cc21b11fc61eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 037/131] fix: complete shift sequences, and start afresh after
 a failed conversion

---
 include/stdex/unicode.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index 404e2d3..32c7d28 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -312,8 +312,16 @@ namespace stdex
 					break;
 				if (errno == E2BIG)
 					continue;
-				throw std::system_error(errno, std::system_category(), "iconv failed");
+				int error = errno;
+				clear();
+				throw std::system_error(error, std::system_category(), "iconv failed");
 			}
+
+			// Return to the initial shift state.
+			T_to* output = &buf[0];
+			size_t output_size = sizeof(buf);
+			iconv(m_handle, NULL, NULL, reinterpret_cast<char**>(&output), &output_size);
+			dst.append(buf, reinterpret_cast<T_to*>(reinterpret_cast<char*>(buf) + sizeof(buf) - output_size));
 #endif
 		}
 
-- 
2.43.0


From 2d5f5915a3aec3af5b8c6e86c597fe55961d243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 038/131] fix: do not close a character set converter twice

---
 include/stdex/unicode.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index 32c7d28..74a0cb0 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -156,6 +156,9 @@ namespace stdex
 		}
 
 #ifndef _WIN32
+		charset_encoder(_In_ const charset_encoder&) = delete;
+		charset_encoder& operator=(_In_ const charset_encoder&) = delete;
+
 		~charset_encoder()
 		{
 			iconv_close(m_handle);
-- 
2.43.0


From c375a4cba7009604b68af356beb71f474d8f3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 039/131] fix: check space left when writing numeric SGML
 entities to a buffer

---
 include/stdex/sgml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 0618c26..3da5c1a 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -744,7 +744,7 @@ namespace stdex
 						char tmp[3 + 8 + 1 + 1];
 						int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(src[i++]));
 						stdex_assert(m >= 0);
-						if (static_cast<size_t>(m) >= count_dst)
+						if (j + static_cast<size_t>(m) >= count_dst)
 							throw buffer_overrun;
 						memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 						j += static_cast<size_t>(m);
@@ -772,7 +772,7 @@ namespace stdex
 							char tmp[3 + 8 + 1 + 1];
 							int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));
 							stdex_assert(m >= 0);
-							if (static_cast<size_t>(m) >= count_dst)
+							if (j + static_cast<size_t>(m) >= count_dst)
 								throw buffer_overrun;
 							memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 							j += static_cast<size_t>(m);
-- 
2.43.0


From b1e13342514603538a01cafcfe6ae5d7f868f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 040/131] fix: leave numeric SGML entities that are no
 character as they are

---
 include/stdex/sgml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 3da5c1a..49e3f11 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -53,7 +53,7 @@ namespace stdex
 			static_cast<utf32_t>(strtou32(&entity[2], count - 2, nullptr, 16)) :
 			static_cast<utf32_t>(strtou32(&entity[1], count - 1, nullptr, 10));
 		buf[1] = 0;
-		return buf;
+		return 0 < buf[0] && buf[0] <= 0x10ffff ? buf : nullptr;
 	}
 
 	inline const utf16_t* utf32_to_wstr(_In_opt_z_ const utf32_t* str, utf16_t* buf)
-- 
2.43.0


From 20f425e7d1d477b7d2b9606bc48fa9afda7ff34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 041/131] fix: stop unescaping URL at the end of string

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5657416..8d6aa54 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -250,10 +250,12 @@ namespace stdex
 					i++;
 
 					char chr;
+					if (i >= num_chars) { dst += '%'; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr = static_cast<char>((src[i++] - '0') << 4);
 					else if ('A' <= src[i] && src[i] <= 'F') chr = static_cast<char>((src[i++] - 'A' + 10) << 4);
 					else if ('a' <= src[i] && src[i] <= 'f') chr = static_cast<char>((src[i++] - 'a' + 10) << 4);
 					else { dst += '%'; continue; }
+					if (i >= num_chars) { dst += '%'; dst += src[i - 1]; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr |= static_cast<char>((src[i++] - '0'));
 					else if ('A' <= src[i] && src[i] <= 'F') chr |= static_cast<char>((src[i++] - 'A' + 10));
 					else if ('a' <= src[i] && src[i] <= 'f') chr |= static_cast<char>((src[i++] - 'a' + 10));
-- 
2.43.0


From ffa175d07a610cb8922ca541bb824ce865e9847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 042/131] fix: escape quotation marks in URL

---
 include/stdex/html.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 8d6aa54..ddae00c 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -315,6 +315,7 @@ namespace stdex
 			for (size_t i = 0; i < num_chars && src[i]; ++i) {
 				switch (src[i]) {
 				case ' ': dst += "%20"; break;
+				case '"': dst += "%22"; break;
 				case '<': dst += "%3C"; break;
 				case '>': dst += "%3E"; break;
 				case '#': dst += "%23"; break;
-- 
2.43.0


From 5a6fb70e2b319e6825f0d4370420248a5cb8518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 043/131] fix: end unescaping CSS at trailing backslash, skip
 space after 6-digit escapes

---
 include/stdex/html.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index ddae00c..a46ac67 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -396,9 +396,7 @@ namespace stdex
 			for (size_t i = 0; i < num_chars && src[i];) {
 				if (src[i] != '\\')
 					dst += src[i++];
-				else if (i + 1 < num_chars) {
-					i++;
-
+				else if (++i < num_chars && src[i]) {
 					switch (src[i]) {
 						// Classic escapes
 					case 'n': dst += '\n'; i++; break;
@@ -437,7 +435,7 @@ namespace stdex
 
 						dst += static_cast<T>(chr);
 
-						if (i < end && src[i] == ' ') {
+						if (i < num_chars && src[i] == ' ') {
 							// Skip space after `\nnnn`.
 							i++;
 						}
-- 
2.43.0


From 293e573eb9a2055d52cbd8f27f46401153481f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 044/131] fix: convert to upper case

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 9a02151..cb17ae7 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -302,7 +302,7 @@ namespace stdex
 	template <class T>
 	T toupper(_In_ T chr)
 	{
-		return islower(chr) ? chr | ~0x20 : chr;
+		return islower(chr) ? chr & ~0x20 : chr;
 	}
 
 	///
-- 
2.43.0


From c688f31670ffd26b5d0575f7f211b69f2ae20fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 045/131] fix: recognise line break at the end of string

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index cb17ae7..f86d4f3 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -131,7 +131,7 @@ namespace stdex
 		stdex_assert(chr || !count);
 		if (count >= 2 && ((chr[0] == '\r' && chr[1] == '\n') || (chr[0] == '\n' && chr[1] == '\r')))
 			return 2;
-		if (count > 1 && (chr[0] == '\n' || chr[0] == '\r'))
+		if (count >= 1 && (chr[0] == '\n' || chr[0] == '\r'))
 			return 1;
 		return 0;
 	}
-- 
2.43.0


From dfba1c7a26df09ad84338d4b16806d19213c01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 046/131] fix: measure only the last UTF-32 glyph

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index f86d4f3..b69a65a 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -274,7 +274,7 @@ namespace stdex
 		stdex_assert(count && str && str[count - 1]);
 		for (size_t i = count; i--;) {
 			if (!iscombining(str[i]))
-				return count - (i == 0 ? i : i - 1);
+				return count - i;
 		}
 		return count;
 	}
-- 
2.43.0


From 9b6548577b6f2a5e18ef675fd61c7af1bb87cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 047/131] fix: return result of case-insensitive comparison of
 arrays

---
 include/stdex/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index b69a65a..a994b39 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1307,7 +1307,7 @@ namespace stdex
 		_In_ const T1 (&str1)[N1],
 		_In_ const T2 (&str2)[N2])
 	{
-		strnicmp(str1, N1, str2, N2);
+		return strnicmp(str1, N1, str2, N2);
 	}
 
 	///
@@ -1325,7 +1325,7 @@ namespace stdex
 		_In_ const T2 (&str2)[N2],
 		_In_ const std::locale& locale)
 	{
-		strnicmp(str1, N1, str2, N2, locale);
+		return strnicmp(str1, N1, str2, N2, locale);
 	}
 
 	///
-- 
2.43.0


From 78c578057e738a543f65ef6f1e50ae752189bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 048/131] fix: collate strings up to their terminators

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index a994b39..7be11e7 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1369,7 +1369,7 @@ namespace stdex
 		stdex_assert(str1 || !count1);
 		stdex_assert(str2 || !count2);
 		auto& collate = std::use_facet<std::collate<T>>(locale);
-		return collate.compare(str1, str1 + count1, str2, str2 + count2);
+		return collate.compare(str1, str1 + strnlen(str1, count1), str2, str2 + strnlen(str2, count2));
 	}
 
 	///
-- 
2.43.0


From 10d88f177408edf611c52c0766e29b6b46b140e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 049/131] fix: terminate strings concatenated and duplicated
 with a limit

---
 include/stdex/string.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 7be11e7..df6a4af 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1796,8 +1796,10 @@ namespace stdex
 		stdex_assert(dst || !count);
 		stdex_assert(src || !count);
 		for (size_t i = 0, j = stdex::strlen<T1>(dst); ; ++i, ++j) {
-			if (i >= count)
+			if (i >= count) {
+				dst[j] = 0;
 				return j;
+			}
 			if ((dst[j] = static_cast<T1>(src[i])) == 0)
 				return j;
 		}
@@ -1870,8 +1872,9 @@ namespace stdex
 		_In_reads_or_z_opt_(count) const T* str,
 		_In_ size_t count)
 	{
-		T* dst = new T[count];
-		strncpy(dst, count, str, SIZE_MAX);
+		count = strnlen(str, count);
+		T* dst = new T[count + 1];
+		strncpy(dst, count + 1, str, count);
 		return dst;
 	}
 
-- 
2.43.0


From 69f6dd67ae2db65f34f0668b1195ef1dcc3ecbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 050/131] fix: saturate positive integers, and negate unsigned
 ones as the C library does

---
 include/stdex/string.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index df6a4af..992bd5b 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2080,7 +2080,7 @@ namespace stdex
 		switch (sizeof(T_bin)) {
 		case 1:
 			value = (T_bin)strtoint<T, uint8_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80)) {
+			if (value & 0x80) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2090,7 +2090,7 @@ namespace stdex
 
 		case 2:
 			value = (T_bin)strtoint<T, uint16_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000)) {
+			if (value & 0x8000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2100,7 +2100,7 @@ namespace stdex
 
 		case 4:
 			value = (T_bin)strtoint<T, uint32_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80000000)) {
+			if (value & 0x80000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2110,7 +2110,7 @@ namespace stdex
 
 		case 8:
 			value = (T_bin)strtoint<T, uint64_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000000000000000)) {
+			if (value & 0x8000000000000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2171,7 +2171,7 @@ namespace stdex
 
 		return (flags & 0x02) ?
 			(flags & 0x01) ? (T_bin)0 : (T_bin)-1 :
-			(flags & 0x01) ? ~value : value;
+			(flags & 0x01) ? static_cast<T_bin>(0 - value) : value;
 	}
 
 	///
-- 
2.43.0


From 4834ffa8c56ad181229b9184cef9bd236c40d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 051/131] fix: parse floating-point numbers using the default
 locale

---
 include/stdex/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 992bd5b..dda63cb 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2597,7 +2597,7 @@ namespace stdex
 #if _WIN32
 		r = _strtod_l(tmp.c_str(), &_end, locale);
 #else
-		r = strtod_l(tmp.c_str(), &_end, locale);
+		r = locale ? strtod_l(tmp.c_str(), &_end, locale) : ::strtod(tmp.c_str(), &_end);
 #endif
 		if (end) *end = (size_t)(_end - tmp.c_str());
 		return r;
@@ -2626,7 +2626,7 @@ namespace stdex
 #if _WIN32
 		r = _wcstod_l(tmp.c_str(), &_end, locale);
 #else
-		r = wcstod_l(tmp.c_str(), &_end, locale);
+		r = locale ? wcstod_l(tmp.c_str(), &_end, locale) : ::wcstod(tmp.c_str(), &_end);
 #endif
 		if (end) *end = (size_t)(_end - tmp.c_str());
 		return r;
-- 
2.43.0


From 1c3b728b21e1094f453ac60756578cadf9b3dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 052/131] fix: compare strings with their prefixes consistently

---
 include/stdex/string.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index dda63cb..081cfe7 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -888,7 +888,7 @@ namespace stdex
 		stdex_assert(str1);
 		stdex_assert(str2);
 		size_t i; T1 a; T2 b;
-		for (i = 0; (a = str1[i]) | (b = str2[i]); ++i) {
+		for (i = 0; (a = str1[i]) && (b = str2[i]); ++i) {
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -912,7 +912,7 @@ namespace stdex
 		stdex_assert(str1 || !count);
 		stdex_assert(str2 || !count);
 		size_t i; T1 a; T2 b;
-		for (i = 0; i < count && ((a = str1[i]) | (b = str2[i])); ++i) {
+		for (i = 0; i < count && (a = str1[i]) && (b = str2[i]); ++i) {
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -942,7 +942,7 @@ namespace stdex
 		for (i = 0; i < count1 && i < count2; ++i) {
 			auto a = str1[i];
 			auto b = str2[i];
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1141,7 +1141,8 @@ namespace stdex
 		for (i = 0; ; ++i) {
 			auto a = tolower(str1[i]);
 			auto b = tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a) return b ? -1 : 0;
+			if (!b) return +1;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1167,7 +1168,8 @@ namespace stdex
 		for (i = 0;; ++i) {
 			auto a = ctype1.tolower(str1[i]);
 			auto b = ctype2.tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a) return b ? -1 : 0;
+			if (!b) return +1;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1191,7 +1193,7 @@ namespace stdex
 		for (i = 0; i < count; ++i) {
 			auto a = tolower(str1[i]);
 			auto b = tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1221,7 +1223,7 @@ namespace stdex
 		for (i = 0; i < count; ++i) {
 			auto a = ctype1.tolower(str1[i]);
 			auto b = ctype2.tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1251,7 +1253,7 @@ namespace stdex
 		for (i = 0; i < count1 && i < count2; ++i) {
 			auto a = tolower(str1[i]);
 			auto b = tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1285,7 +1287,7 @@ namespace stdex
 		for (i = 0; i < count1 && i < count2; ++i) {
 			auto a = ctype1.tolower(str1[i]);
 			auto b = ctype2.tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
-- 
2.43.0


From 9e103cc8c5ad39c81b1521b74d380914e6d82251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 053/131] fix: write wide UUIDs without a stray argument

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 7a81877..2f2f9ca 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -69,7 +69,7 @@ namespace stdex
 			static_cast<unsigned int>(id.Data4[0]), static_cast<unsigned int>(id.Data4[1]),
 			static_cast<unsigned int>(id.Data4[2]), static_cast<unsigned int>(id.Data4[3]), static_cast<unsigned int>(id.Data4[4]), static_cast<unsigned int>(id.Data4[5]), static_cast<unsigned int>(id.Data4[6]), static_cast<unsigned int>(id.Data4[7]));
 #else
-		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}", NULL,
+		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}",
 			*reinterpret_cast<const uint32_t*>(&id[0]),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[4])),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[6])),
-- 
2.43.0


From 986d3ac598fea47ff346e473ca9d02846806bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 054/131] fix: reject UUIDs lacking the last hyphen

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 2f2f9ca..1f4d384 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -146,7 +146,7 @@ namespace stdex
 #endif
 		i += j;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
-		if (i >= count && str[i] != '-') return false;
+		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-- 
2.43.0


From ce9ad33fc54aae7e1af52f996e1d5fa0643d3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 055/131] fix: reject UUIDs with signed or empty fields

---
 include/stdex/uuid.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 1f4d384..7376a25 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -99,8 +99,9 @@ namespace stdex
 		if (i >= count || str[i] != '{') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '+' || str[i] == '-') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > UINT32_MAX) return false;
+		if (!j || n > UINT32_MAX) return false;
 #ifdef _WIN32
 		id.Data1 = static_cast<unsigned long>(n);
 #else
@@ -111,8 +112,9 @@ namespace stdex
 		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '+' || str[i] == '-') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > UINT16_MAX) return false;
+		if (!j || n > UINT16_MAX) return false;
 #ifdef _WIN32
 		id.Data2 = static_cast<unsigned short>(n);
 #else
@@ -123,8 +125,9 @@ namespace stdex
 		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '+' || str[i] == '-') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > UINT16_MAX) return false;
+		if (!j || n > UINT16_MAX) return false;
 #ifdef _WIN32
 		id.Data3 = static_cast<unsigned short>(n);
 #else
@@ -135,8 +138,9 @@ namespace stdex
 		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '+' || str[i] == '-') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > UINT16_MAX) return false;
+		if (!j || n > UINT16_MAX) return false;
 #ifdef _WIN32
 		id.Data4[0] = static_cast<unsigned char>((n >> 8) & 0xff);
 		id.Data4[1] = static_cast<unsigned char>((n) & 0xff);
@@ -149,8 +153,9 @@ namespace stdex
 		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
+		if (i >= count || str[i] == '+' || str[i] == '-') return false;
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > 0xffffffffffff) return false;
+		if (!j || n > 0xffffffffffff) return false;
 #ifdef _WIN32
 		id.Data4[2] = static_cast<unsigned char>((n >> 40) & 0xff);
 		id.Data4[3] = static_cast<unsigned char>((n >> 32) & 0xff);
-- 
2.43.0


From fb23df4180e85166c80282b0eee56e7708de946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 056/131] fix: convert dates before year 0 and the epoch, and
 of far future

---
 include/stdex/chrono.hpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 77c0681..7b731cf 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -18,6 +18,13 @@
 namespace stdex {
 	namespace chrono
 	{
+		/// \cond internal
+		inline constexpr int64_t floor_div(_In_ int64_t a, _In_ int64_t b) noexcept
+		{
+			return a / b - (a % b < 0 ? 1 : 0);
+		}
+		/// \endcond
+
 		///
 		/// AOsn date
 		///
@@ -58,7 +65,7 @@ namespace stdex {
 			///
 			static time_point from_time_t(_In_ std::time_t t) noexcept
 			{
-				return time_point(duration(static_cast<rep>((t + 210866803200) / 86400)));
+				return time_point(duration(static_cast<rep>(floor_div(t + 210866803200, 86400))));
 			}
 
 #ifdef _WIN32
@@ -156,12 +163,12 @@ namespace stdex {
 					mtmp = month + 9;
 					ytmp = year - 1;
 				}
-				int32_t ctmp = (ytmp / 100);
+				int32_t ctmp = static_cast<int32_t>(floor_div(ytmp, 100));
 				int32_t dtmp = ytmp - (100 * ctmp);
-				int32_t result1 = 146097L * ctmp / 4;
+				int64_t result1 = floor_div(static_cast<int64_t>(146097) * ctmp, 4);
 				int32_t result2 = (1461 * dtmp) / 4;
 				int32_t result3 = (153 * mtmp + 2) / 5;
-				return time_point(duration(static_cast<int32_t>(result1) + day + result2 + 1721119L + result3));
+				return time_point(duration(static_cast<rep>(result1 + day + result2 + 1721119 + result3)));
 			}
 
 			///
@@ -169,9 +176,9 @@ namespace stdex {
 			///
 			static void to_dmy(_In_ const time_point tp, _Out_opt_ uint8_t* day, _Out_opt_ uint8_t* month, _Out_opt_ int32_t* year) noexcept
 			{
-				int32_t mtmp = tp.time_since_epoch().count() - 1721119L;
-				int32_t yr = (4 * mtmp - 1) / 146097L;
-				mtmp = 4 * mtmp - 1 - 146097L * yr;
+				int64_t days4 = 4 * (static_cast<int64_t>(tp.time_since_epoch().count()) - 1721119) - 1;
+				int32_t yr = static_cast<int32_t>(floor_div(days4, 146097));
+				int32_t mtmp = static_cast<int32_t>(days4 - static_cast<int64_t>(146097) * yr);
 				int32_t da = mtmp / 4;
 				mtmp = (4 * da + 3) / 1461;
 				da = 4 * da + 3 - 1461 * mtmp;
@@ -196,7 +203,7 @@ namespace stdex {
 			///
 			static uint8_t day_of_week(_In_ const time_point tp)
 			{
-				return static_cast<uint8_t>(tp.time_since_epoch().count() % 7);
+				return static_cast<uint8_t>((tp.time_since_epoch().count() % 7 + 7) % 7);
 			}
 
 			///
@@ -204,7 +211,7 @@ namespace stdex {
 			///
 			static uint8_t day_of_week(_In_ uint8_t day, _In_ uint8_t month, _In_ int32_t year)
 			{
-				return static_cast<uint8_t>(from_dmy(day, month, year).time_since_epoch().count() % 7);
+				return day_of_week(from_dmy(day, month, year));
 			}
 		};
 
@@ -252,7 +259,7 @@ namespace stdex {
 			///
 			static std::time_t to_time_t(_In_ const time_point tp) noexcept
 			{
-				return tp.time_since_epoch().count() / one_second - 210866803200;
+				return floor_div(tp.time_since_epoch().count(), one_second) - 210866803200;
 			}
 
 			///
@@ -371,7 +378,7 @@ namespace stdex {
 			///
 			static aosn_date::time_point to_date(_In_ time_point tp) noexcept
 			{
-				return aosn_date::time_point(aosn_date::duration(static_cast<aosn_date::rep>(tp.time_since_epoch().count() / one_day)));
+				return aosn_date::time_point(aosn_date::duration(static_cast<aosn_date::rep>(floor_div(tp.time_since_epoch().count(), one_day))));
 			}
 
 			///
@@ -402,7 +409,7 @@ namespace stdex {
 				_Out_opt_ uint8_t* hour, _Out_opt_ uint8_t* minute, _Out_opt_ uint8_t* second, _Out_opt_ uint16_t* millisecond) noexcept
 			{
 				aosn_date::to_dmy(to_date(tp), day, month, year);
-				int32_t u = static_cast<int32_t>(tp.time_since_epoch().count() % one_day);
+				int32_t u = static_cast<int32_t>(tp.time_since_epoch().count() - floor_div(tp.time_since_epoch().count(), one_day) * one_day);
 				if (millisecond) *millisecond = static_cast<uint16_t>(u % f_second);
 				u = u / f_second;
 				if (second) *second = static_cast<uint8_t>(u % f_minute);
-- 
2.43.0


From 183cb7550fe86b577836e432b762516e7552cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 057/131] fix: convert nanoseconds to milliseconds

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 7b731cf..77c7c2f 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -306,7 +306,7 @@ namespace stdex {
 			///
 			static time_point from_system(_In_ const struct timespec& t) noexcept
 			{
-				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000)));
+				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000000)));
 			}
 #endif
 
-- 
2.43.0


From 79c61e8322e4ae19d8aec1e25ff1ce8601cdf8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 058/131] fix: set day of year and time zone of broken-down
 time

---
 include/stdex/chrono.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 77c7c2f..bbba77e 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -316,6 +316,7 @@ namespace stdex {
 				uint16_t millisecond;
 				int32_t year;
 				to_dmy(tp, &day, &month, &year, &hour, &minute, &second, &millisecond);
+				date = {};
 				date.tm_sec = second;
 				date.tm_min = minute;
 				date.tm_hour = hour;
@@ -323,7 +324,7 @@ namespace stdex {
 				date.tm_mon = month - 1;
 				date.tm_year = year - 1900;
 				date.tm_wday = (static_cast<int>(aosn_date::day_of_week(to_date(tp))) + 1) % 7;
-				date.tm_yday = 0;
+				date.tm_yday = (to_date(tp) - aosn_date::from_dmy(1, 1, year)).count();
 				date.tm_isdst = 0;
 			}
 
-- 
2.43.0


From f941db2605de3190e115acecd2b3d396e26807dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 059/131] fix: format time points to empty and long text and in
 the default locale

---
 include/stdex/chrono.hpp | 55 ++++------------------------------------
 1 file changed, 5 insertions(+), 50 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index bbba77e..f83c594 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -9,6 +9,7 @@
 #include "math.hpp"
 #include "system.hpp"
 #include "locale.hpp"
+#include "string.hpp"
 #include <stdint.h>
 #include <chrono>
 #include <ctime>
@@ -426,31 +427,8 @@ namespace stdex {
 				struct tm date;
 				to_system(tp, date);
 				std::basic_string<char, TR, AX> str;
-				char stack_buffer[1024 / sizeof(char)];
-				size_t n;
-#if _WIN32
-				n = _strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
-#else
-				n = strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
-#endif
-				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
-					return str;
-				}
-				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
-				for (;;) {
-					std::unique_ptr<char> buf(new char[num_chars]);
-#if _WIN32
-					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
-#else
-					n = strftime_l(buf.get(), num_chars, format, &date, locale);
-#endif
-					if (n) {
-						str.assign(buf.get(), buf.get() + n);
-						return str;
-					}
-					num_chars = stdex::mul(num_chars, 2);
-				}
+				stdex::strcatftime(str, format, &date, locale);
+				return str;
 			}
 
 			template<class TR = std::char_traits<wchar_t>, class AX = std::allocator<wchar_t>>
@@ -459,31 +437,8 @@ namespace stdex {
 				struct tm date;
 				to_system(tp, date);
 				std::basic_string<wchar_t, TR, AX> str;
-				wchar_t stack_buffer[1024 / sizeof(wchar_t)];
-				size_t n;
-#if _WIN32
-				n = _wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
-#else
-				n = wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
-#endif
-				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
-					return str;
-				}
-				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
-				for (;;) {
-					std::unique_ptr<wchar_t> buf(new wchar_t[num_chars]);
-#if _WIN32
-					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
-#else
-					n = wcsftime_l(buf.get(), num_chars, format, &date, locale);
-#endif
-					if (n) {
-						str.assign(buf.get(), buf.get() + n);
-						return str;
-					}
-					num_chars = stdex::mul(num_chars, 2);
-				}
+				stdex::strcatftime(str, format, &date, locale);
+				return str;
 			}
 
 			template<class TR = std::char_traits<char>, class AX = std::allocator<char>>
-- 
2.43.0


From d02182e68ff6176067f58856a375c0e43976588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 060/131] fix: skip and read records of maximum size

---
 include/stdex/idrec.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 6856f7d..41d26cd 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -86,8 +86,8 @@ namespace stdex {
 			if (!stream.good()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.ignore(size);
+			stream.ignore(static_cast<std::streamsize>(size));
+			stream.ignore(padding<T_size, N_align>(size));
 			if (!stream.good()) _Unlikely_ return false;
 
 			return true;
@@ -111,9 +111,10 @@ namespace stdex {
 			if (!stream.ok()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
 			stream.skip(size);
 			if (!stream.ok()) _Unlikely_ return false;
+			stream.skip(padding<T_size, N_align>(size));
+			if (!stream.ok()) _Unlikely_ return false;
 
 			return true;
 		}
@@ -492,8 +493,7 @@ namespace stdex {
 				stream >> r.data; // TODO: operator >> should not read past the record data! Make a size limited stream and read from it instead.
 				if (!stream.good()) _Unlikely_ return stream;
 
-				size += padding<T_size, N_align>(size);
-				stream.seekg(start + size);
+				stream.seekg(start + static_cast<std::streamoff>(size) + padding<T_size, N_align>(size));
 
 				return stream;
 			}
@@ -523,8 +523,10 @@ namespace stdex {
 					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
 				}
 
-				size += padding<T_size, N_align>(size);
-				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size));
+				stream.seekbeg(start);
+				stream.skip(size);
+				if (!stream.ok()) _Unlikely_ return stream;
+				stream.skip(padding<T_size, N_align>(size));
 
 				return stream;
 			}
-- 
2.43.0


From 07347bf8ffe54c5fcf720bd8222bf1efc525a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 061/131] fix: report record sizes that could not be written

---
 include/stdex/idrec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 41d26cd..26d22dd 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -279,6 +279,7 @@ namespace stdex {
 			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			stream.seekbeg(start + sizeof(T_id));
 			stream << size;
+			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			stream.seekbeg(end);
 
 			return end;
-- 
2.43.0


From d8185140778cd5bd1c9ab7164f1cd193fa7bceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 062/131] fix: reject relative seeks beyond the largest file
 offset

---
 include/stdex/stream.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 0c031eb..e21aee6 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -787,6 +787,15 @@ namespace stdex
 		constexpr foff_t foff_max = INT64_MAX;
 		constexpr foff_t foff_min = INT64_MIN;
 
+		/// \cond internal
+		inline foff_t add_offset(_In_ fpos_t base, _In_ foff_t offset)
+		{
+			if (base > static_cast<fpos_t>(foff_max) || (offset > 0 && static_cast<foff_t>(base) > foff_max - offset)) _Unlikely_
+				throw std::invalid_argument("file offset too big");
+			return static_cast<foff_t>(base) + offset;
+		}
+		/// \endcond
+
 		///
 		/// Seek anchor
 		///
@@ -1769,9 +1778,9 @@ namespace stdex
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
 			{
 				switch (how) {
-				case seek_t::beg: offset = static_cast<foff_t>(m_region.start) + offset; break;
-				case seek_t::cur: offset = static_cast<foff_t>(m_offset) + offset; break;
-				case seek_t::end: offset = static_cast<foff_t>(m_region.end) + offset; break;
+				case seek_t::beg: offset = add_offset(m_region.start, offset); break;
+				case seek_t::cur: offset = add_offset(m_offset, offset); break;
+				case seek_t::end: offset = add_offset(m_region.end, offset); break;
 				default: throw std::invalid_argument("unknown seek origin");
 				}
 				if (offset < static_cast<foff_t>(m_region.start)) _Unlikely_
@@ -2064,7 +2073,7 @@ namespace stdex
 				case seek_t::beg:
 					break;
 				case seek_t::cur:
-					offset = static_cast<foff_t>(m_offset) + offset;
+					offset = add_offset(m_offset, offset);
 					break;
 				case seek_t::end: {
 					auto n = size();
@@ -2072,7 +2081,7 @@ namespace stdex
 						m_state = state_t::fail;
 						return fpos_max;
 					}
-					offset = static_cast<foff_t>(n) + offset;
+					offset = add_offset(n, offset);
 					break;
 				}
 				default:
@@ -3964,8 +3973,8 @@ namespace stdex
 			{
 				switch (how) {
 				case seek_t::beg: break;
-				case seek_t::cur: offset = static_cast<foff_t>(m_offset) + offset; break;
-				case seek_t::end: offset = static_cast<foff_t>(m_size) + offset; break;
+				case seek_t::cur: offset = add_offset(m_offset, offset); break;
+				case seek_t::end: offset = add_offset(m_size, offset); break;
 				default: throw std::invalid_argument("unknown seek origin");
 				}
 				if (offset < 0) _Unlikely_
-- 
2.43.0


From 73d94d9c5bd7eb318abd285197bbba80485daa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 063/131] fix: end reading WAV cues when there are no more
 blocks

---
 include/stdex/wav.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5bc8f9d..3051e7c 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -537,6 +537,8 @@ namespace stdex
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
 				}
+				else
+					break;
 			}
 
 			// Cues are loaded. Add other data.
@@ -587,6 +589,8 @@ namespace stdex
 							return false;
 					}
 				}
+				else
+					break;
 			}
 
 			dat.seekbeg(start);
-- 
2.43.0


From cd9f637e222d73d507c3a235f8212b743630a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 064/131] fix: do not allocate more WAV cues than there are

---
 include/stdex/wav.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 3051e7c..7410fdb 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -250,8 +250,13 @@ namespace stdex
 			uint32_t num_cues;
 			dat >> num_cues;
 			if (!dat.ok()) _Unlikely_ goto error1;
-			data.resize(num_cues);
-			data.resize(dat.read_array(data.data(), sizeof(cue), num_cues));
+			data.clear();
+			for (size_t num_read = 0; num_read < num_cues && dat.ok();) {
+				size_t num_block = std::min<size_t>(num_cues - num_read, 0x1000);
+				data.resize(num_read + num_block);
+				num_read += dat.read_array(&data[num_read], sizeof(cue), num_block);
+				data.resize(num_read);
+			}
 			return dat;
 
 		error1:
@@ -523,17 +528,16 @@ namespace stdex
 					uint32_t num_cues;
 					_dat >> num_cues;
 					if (!_dat.ok()) _Unlikely_ return false;
-					cues.resize(num_cues);
-					size_t i;
+					cues.clear();
 					bool ordered = true;
-					for (i = 0; i < num_cues; i++) {
-						_dat.read_array(static_cast<cue*>(&cues[i]), sizeof(cue), 1);
-						if (!_dat.ok()) _Unlikely_
+					for (uint32_t i = 0; i < num_cues; i++) {
+						cue_ex c;
+						if (_dat.read_array(static_cast<cue*>(&c), sizeof(cue), 1) != 1 || !_dat.ok()) _Unlikely_
 							break;
-						if (i && cue_less(cues[i], cues[i - 1]))
+						if (i && cue_less(c, cues.back()))
 							ordered = false;
+						cues.push_back(std::move(c));
 					}
-					cues.resize(i);
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
 				}
-- 
2.43.0


From 8f36b552cf0be4975f1275cf4e3ab3b18c6eec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 065/131] fix: remove WAV cues and keep the other blocks

---
 include/stdex/wav.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 7410fdb..233fe24 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -617,22 +617,18 @@ namespace stdex
 				id_t id;
 				input >> id;
 				if (!input.ok()) break;
-				for (size_t i = 0; i < _countof(removable); i++)
-					if (id == removable[i])
-						goto remove;
-				if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
-					return false;
-				continue;
+				if (std::find(std::begin(removable), std::end(removable), id) != std::end(removable)) {
+					if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
+						return false;
+					continue;
+				}
 
-			remove:
 				length_t size;
 				input >> size;
 				if (!input.ok()) _Unlikely_ return false;
 				auto start = stdex::idrec::open<id_t, length_t>(output, id);
-				id_t id2 = id;
-				stdex::strupr(reinterpret_cast<char*>(&id2), sizeof(id_t) / sizeof(char));
-				if (id != id2 || id == *reinterpret_cast<const id_t*>("ICRD")) {
-					// ID is not all uppercase (or is an exception). Element is trivial and may be copied.
+				if (id != header::record::id() && id != list::record::id()) {
+					// Element is trivial and may be copied.
 					if (!output.ok()) _Unlikely_ return false;
 					output.write_stream(input, size);
 					if (!input.ok()) _Unlikely_ return false;
@@ -642,7 +638,7 @@ namespace stdex
 						input.seekcur(size);
 				}
 				else {
-					// ID is all uppercase. Needs recursive treatment.
+					// Element contains other elements. Needs recursive treatment.
 					id_t id3;
 					input >> id3;
 					if (!input.ok()) _Unlikely_ return false;
-- 
2.43.0


From 46e01b036d4b4e5d229c2436f0bf30a9079cd7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 066/131] fix: read Minisign signature on the last line without
 a line break

---
 include/stdex/minisign.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdex/minisign.hpp b/include/stdex/minisign.hpp
index 987535e..58443fa 100644
--- a/include/stdex/minisign.hpp
+++ b/include/stdex/minisign.hpp
@@ -106,11 +106,16 @@ namespace stdex
 			std::string line;
 			for (;;) {
 				minisig.readln(line);
-				if (!minisig.ok())
+				bool is_last_line = !minisig.ok();
+				if (is_last_line && minisig.state() != stdex::stream::state_t::eof)
 					break;
 				if (line.empty() ||
 					untrusted_comment.match(line.data(), 0, line.size()))
+				{
+					if (is_last_line)
+						break;
 					continue;
+				}
 				stdex::base64_dec decoder; bool is_last;
 				decoder.decode(data, is_last, line.data(), line.size());
 				break;
-- 
2.43.0


From 01772d713f1e37d3faccf7938b545bf478d96d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 067/131] fix: do not let the optimizer remove wiping of
 released memory

---
 include/stdex/memory.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/memory.hpp b/include/stdex/memory.hpp
index 97c6f05..04863b4 100644
--- a/include/stdex/memory.hpp
+++ b/include/stdex/memory.hpp
@@ -108,6 +108,7 @@ namespace stdex
 			SecureZeroMemory(p, sizeof(T) * n);
 #else
 			memset(p, 0, sizeof(T) * n);
+			__asm__ __volatile__("" : : "r"(p) : "memory"); // Memory is about to be released: keep the compiler from discarding memset.
 #endif
 			std::allocator<T>::deallocate(p, n);
 		}
@@ -133,6 +134,7 @@ namespace stdex
 			SecureZeroMemory(m_data, N);
 #else
 			memset(m_data, 0, N);
+			__asm__ __volatile__("" : : "r"(m_data) : "memory"); // m_data is about to be released: keep the compiler from discarding memset.
 #endif
 		}
 
-- 
2.43.0


From 4d4aa364736ef5a09ae2d63545bee696f8ca91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 068/131] fix: duplicate the handle before closing the old one
 on assignment

---
 include/stdex/system.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdex/system.hpp b/include/stdex/system.hpp
index 737a8fc..23826dd 100644
--- a/include/stdex/system.hpp
+++ b/include/stdex/system.hpp
@@ -148,9 +148,10 @@ namespace stdex
 		basic_sys_object& operator =(_In_ const basic_sys_object<T, TR>& other)
 		{
 			if (this != std::addressof(other)) {
-				if (m_h != TR::invalid_handle)
-					TR::close(m_h);
-				m_h = other.m_h != TR::invalid_handle ? TR::duplicate(other.m_h) : TR::invalid_handle;
+				T h = other.m_h != TR::invalid_handle ? TR::duplicate(other.m_h) : TR::invalid_handle;
+				std::swap(m_h, h);
+				if (h != TR::invalid_handle)
+					TR::close(h);
 			}
 			return *this;
 		}
-- 
2.43.0


From d209874757814b2ca3df6c107a47567525a8a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 069/131] fix: keep the exit lambda of scoped_executor by value

---
 include/stdex/scoped_executor.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stdex/scoped_executor.hpp b/include/stdex/scoped_executor.hpp
index 7819367..97f93b0 100644
--- a/include/stdex/scoped_executor.hpp
+++ b/include/stdex/scoped_executor.hpp
@@ -18,7 +18,7 @@ namespace stdex
 	template <typename F_init, typename F_done>
 	class scoped_executor
 	{
-		F_done&& m_done;
+		F_done m_done;
 
 	public:
 		///
@@ -27,17 +27,20 @@ namespace stdex
 		/// \param[in] init  Lambda to execute immediately
 		/// \param[in] done  Lambda to execute in destructor
 		///
-		scoped_executor(_In_ F_init&& init, _In_ F_done&& done) : m_done(std::forward<F_done&&>(done))
+		scoped_executor(_In_ F_init&& init, _In_ F_done&& done) : m_done(std::forward<F_done>(done))
 		{
 			std::forward<F_init&&>(init)();
 		}
 
+		scoped_executor(_In_ const scoped_executor&) = delete;
+		scoped_executor& operator=(_In_ const scoped_executor&) = delete;
+
 		///
 		/// Executes done lambda
 		///
 		~scoped_executor()
 		{
-			std::forward<F_done&&>(m_done)();
+			std::forward<F_done>(m_done)();
 		}
 	};
 }
-- 
2.43.0


From a3de23a4522bc20c8f97e8fe1b756012d298fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 070/131] fix: copy the code points of an SGML entity to the
 buffer given

---
 include/stdex/sgml.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 49e3f11..a30fd68 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -76,8 +76,13 @@ namespace stdex
 
 	inline const utf32_t* utf32_to_wstr(_In_opt_z_ const utf32_t* str, utf32_t* buf)
 	{
-		_Unreferenced_(buf);
-		return str;
+		if (!str)
+			return nullptr;
+		for (size_t i = 0;; ++i) {
+			buf[i] = str[i];
+			if (!str[i])
+				return buf;
+		}
 	}
 
 	template <class T>
-- 
2.43.0


From 1fa1cefe51fe9f39d767db99cb0e4402c8929ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 071/131] fix: do not match a string beyond the end of the text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 03e6f13..cfa7b48 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -832,7 +832,7 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				size_t
 					m = m_str.size(),
-					n = std::min<size_t>(end - start, m);
+					n = start < end ? std::min<size_t>(end - start, m) : 0;
 				bool r = ((flags & match_case_insensitive) ?
 					stdex::strnicmp(text + start, n, m_str.data(), m, this->m_locale) :
 					stdex::strncmp(text + start, n, m_str.data(), m)) == 0;
-- 
2.43.0


From 6e21cdcb7838e1cdc560e21b5d30c00086bc5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 072/131] fix: allow monetary numerals without signs

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index cfa7b48..961870a 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2263,17 +2263,17 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 
-				if (positive_sign->match(text, this->interval.end, end, flags)) {
+				if (positive_sign && positive_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = positive_sign->interval.end;
 					if (negative_sign) negative_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (negative_sign->match(text, this->interval.end, end, flags)) {
+				else if (negative_sign && negative_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = negative_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (special_sign->match(text, this->interval.end, end, flags)) {
+				else if (special_sign && special_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = special_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (negative_sign) negative_sign->invalidate();
-- 
2.43.0


From d5b220efb4091705adb20d73b172b892e0abd342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 073/131] fix: allow phone numbers without parentheses

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 961870a..2ba7249 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4523,8 +4523,8 @@ namespace stdex
 
 				this->interval.end = start;
 				value.clear();
-				m_lparenthesis->invalidate();
-				m_rparenthesis->invalidate();
+				if (m_lparenthesis) m_lparenthesis->invalidate();
+				if (m_rparenthesis) m_rparenthesis->invalidate();
 
 				if (m_plus_sign && m_plus_sign->match(text, this->interval.end, end, flags)) {
 					value.append(text + m_plus_sign->interval.start, text + m_plus_sign->interval.end);
-- 
2.43.0


From 1339c7d352488f1b9d7739862b12cdd570e10c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 074/131] fix: do not match an URL path beyond the end of the
 text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 2ba7249..4e297e7 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6173,7 +6173,7 @@ namespace stdex
 				this->interval.end = start;
 				segments.clear();
 				stdex_assert(text || this->interval.end >= end);
-				if (this->interval.end < end && text[this->interval.end] != '/')
+				if (this->interval.end >= end || text[this->interval.end] != '/')
 					goto error;
 				this->interval.end++;
 				s.match(text, this->interval.end, end, flags);
-- 
2.43.0


From 99d1e49bb568614284f9adc0d97f68ca5341cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 075/131] fix: do not read an URL parameter beyond the end of
 the text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 4e297e7..483ccf1 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6248,7 +6248,7 @@ namespace stdex
 					name.end = this->interval.end;
 				else
 					goto error;
-				if (text[this->interval.end] == '=') {
+				if (this->interval.end < end && text[this->interval.end] == '=') {
 					this->interval.end++;
 					value.start = this->interval.end;
 					for (;;) {
-- 
2.43.0


From 77fa8958b23db335800b3f9c470f26e0bba247a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 076/131] fix: skip stray / in HTML tags

---
 include/stdex/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 483ccf1..f69f4e7 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8205,7 +8205,9 @@ namespace stdex
 
 						// Attributes follow...
 						html_attribute* a = nullptr;
-						if (this->m_ident.match(text, this->interval.end, end, flags)) {
+						if (this->m_ident.match(text, this->interval.end, end, flags) &&
+							(!this->m_ident.interval.empty() || text[this->interval.end] != '/'))
+						{
 							this->attributes.push_back(std::move(html_attribute{ this->m_ident.interval }));
 							a = &this->attributes.back();
 							stdex_assert(a);
-- 
2.43.0


From 8766d9823e7a5280541d0c1aa8f26feb673e8848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 077/131] fix: do not report version of an agent matched before

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index f69f4e7..f298e33 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6766,6 +6766,8 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 				type.start = this->interval.end;
+				version.start = 1;
+				version.end = 0;
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
 						if (text[this->interval.end] == '/') {
-- 
2.43.0


From 2c8d419aa59c23ce31ca6fce4f306d67d23b972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 078/131] fix: do not report weight of a value matched before

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index f298e33..776a2f5 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6565,6 +6565,7 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				size_t konec_vrednosti;
 				this->interval.end = start;
+				factor.invalidate();
 				if (asterisk.match(text, this->interval.end, end, flags)) {
 					this->interval.end = konec_vrednosti = asterisk.interval.end;
 					value.invalidate();
-- 
2.43.0


From 2756800de4cd310bada40ed1d5633fca8c62c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 079/131] fix: forget digit count of a separated integer
 matched before

---
 include/stdex/parser.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 776a2f5..9d3b65b 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -1435,8 +1435,7 @@ namespace stdex
 
 					return true;
 				}
-				this->value = 0;
-				this->interval.invalidate();
+				invalidate();
 				return false;
 			}
 
-- 
2.43.0


From 6d88cae59fec924d36614c8a9d013932a9990936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 080/131] fix: return IPv4 address in network byte order

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9d3b65b..c081546 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2441,7 +2441,7 @@ namespace stdex
 				if (i < 4)
 					goto error;
 
-				HE2BE(reinterpret_cast<uint32_t&>(value.s_addr));
+				value.s_addr = HE2BE(static_cast<uint32_t>(value.s_addr));
 				this->interval.start = start;
 				return true;
 
-- 
2.43.0


From e18a4e099040e6a9a4793a9211f8e43acad2bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 081/131] fix: return value of an IPv6 address

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c081546..6a01254 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2705,7 +2705,7 @@ namespace stdex
 						goto error;
 					}
 					components[i].end = this->interval.end;
-					HE2BE(reinterpret_cast<uint16_t&>(this->value.s6_words[i]));
+					this->value.s6_words[i] = HE2BE(static_cast<uint16_t>(x));
 				}
 
 				if (compaction_i != SIZE_MAX) {
-- 
2.43.0


From e35ae20102db7da8e38275ae82ce4ea3e4b6a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 082/131] fix: do not match a stray : after an IPv6 address

---
 include/stdex/parser.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 6a01254..0a15816 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2637,7 +2637,7 @@ namespace stdex
 				this->interval.end = start;
 				memset(&value, 0, sizeof(value));
 
-				size_t i, compaction_i = SIZE_MAX, compaction_start = start;
+				size_t i, compaction_i = SIZE_MAX, compaction_start = start, match_end = start;
 				for (i = 0; i < 8; i++) {
 					bool is_empty = true;
 
@@ -2650,7 +2650,7 @@ namespace stdex
 								// Zero compaction start
 								compaction_i = i;
 								compaction_start = m_separator->interval.start;
-								this->interval.end = m_separator->interval.end;
+								match_end = this->interval.end = m_separator->interval.end;
 							}
 							else {
 								// More than one zero compaction
@@ -2704,7 +2704,7 @@ namespace stdex
 						}
 						goto error;
 					}
-					components[i].end = this->interval.end;
+					match_end = components[i].end = this->interval.end;
 					this->value.s6_words[i] = HE2BE(static_cast<uint16_t>(x));
 				}
 
@@ -2723,6 +2723,7 @@ namespace stdex
 				}
 				else if (i < 8)
 					goto error;
+				this->interval.end = match_end;
 
 				if (m_scope_id_separator && m_scope_id_separator->match(text, this->interval.end, end, flags) &&
 					scope_id && scope_id->match(text, m_scope_id_separator->interval.end, end, flags))
-- 
2.43.0


From f8243183ab148e62524b42e7008d26c2de323d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 083/131] fix: match an FTP URL with username only

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 0a15816..a78ac27 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3546,7 +3546,7 @@ namespace stdex
 							// Username and password
 							this->interval.end = m_at->interval.end;
 						}
-						else if (m_at->match(text, this->interval.end, end, flags)) {
+						else if (m_at->match(text, username->interval.end, end, flags)) {
 							// Username only
 							this->interval.end = m_at->interval.end;
 							password->invalidate();
-- 
2.43.0


From 88071fc2ca6910756bd495bcd4c310a8357cbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 084/131] fix: make room for a creditor reference of letters
 only

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index a78ac27..cd1b958 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5001,7 +5001,7 @@ namespace stdex
 					this->reference[--j] = '0';
 
 				// Normalize creditor reference.
-				T normalized[47];
+				T normalized[49];
 				available = 0;
 				for (size_t i = 0; ; ++i) {
 					if (!this->reference[i]) {
-- 
2.43.0


From 05506202b15d89f734993f01e16f6b48a9f9a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 085/131] fix: do not match trailing space after a creditor
 reference

---
 include/stdex/parser.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index cd1b958..b02ad08 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4975,17 +4975,18 @@ namespace stdex
 				this->check_digits[2] = 0;
 
 				for (n = 0;;) {
-					if (m_space && m_space->match(text, this->interval.end, end, flags))
-						this->interval.end = m_space->interval.end;
+					next = this->interval.end;
+					if (m_space && m_space->match(text, next, end, flags))
+						next = m_space->interval.end;
 					for (size_t j = 0; j < 4; ++j) {
-						if (this->interval.end >= end || !text[this->interval.end])
+						if (next >= end || !text[next])
 							goto out;
-						T chr = case_insensitive ? ctype.toupper(text[this->interval.end]) : text[this->interval.end];
+						T chr = case_insensitive ? ctype.toupper(text[next]) : text[next];
 						if (('0' <= chr && chr <= '9') || ('A' <= chr && chr <= 'Z')) {
 							if (n >= _countof(reference) - 1)
 								goto error; // reference overflow
 							this->reference[n++] = chr;
-							this->interval.end++;
+							this->interval.end = ++next;
 						}
 						else
 							goto out;
-- 
2.43.0


From 33582614b7ea456293622f1026e4c8034dddce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 086/131] fix: check control digit of multi-part SI references

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index b02ad08..d2abbe3 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5444,7 +5444,7 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
 				return control == part2[num_part2 - 1] - '0';
 			}
@@ -5465,9 +5465,9 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
-				return control == part2[num_part3 - 1] - '0';
+				return control == part3[num_part3 - 1] - '0';
 			}
 
 			std::shared_ptr<basic_parser<T>> m_space;
-- 
2.43.0


From 89a5e0303a5eaff89125ee111a76d616ce4eda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 087/131] fix: report the mouth of an emoticon

The attempt to match one more mouth left hit_offset at SIZE_MAX, or at the
different mouth that follows.
---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index d2abbe3..dc55323 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3936,6 +3936,7 @@ namespace stdex
 						for (this->interval.end = mouth->interval.end; mouth->match(text, this->interval.end, end, flags) && mouth->hit_offset == hit_offset; this->interval.end = mouth->interval.end);
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
@@ -3948,6 +3949,7 @@ namespace stdex
 						if (nose) nose->invalidate();
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
-- 
2.43.0


From 8ae5ff19bda2bd31252fdf216d02ab8f4da4e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 088/131] fix: accept non-ASCII in HTTP text

char may be signed: all octets from 128 on were rejected in quoted strings.
---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index dc55323..49b091a 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5659,7 +5659,7 @@ namespace stdex
 					this->interval.end = m_space.interval.end;
 					return true;
 				}
-				else if (this->interval.end < end && text[this->interval.end] && text[this->interval.end] >= 0x20) {
+				else if (this->interval.end < end && text[this->interval.end] && static_cast<unsigned char>(text[this->interval.end]) >= 0x20) {
 					this->interval.start = start;
 					this->interval.end++;
 					return true;
-- 
2.43.0


From 80a0b4931027d1d7b3ee89c1df6d5e042cf43209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 089/131] fix: require = in HTTP parameters and allow space
 after it

The space was skipped when = was missing instead, which also took any two
values one after another for a parameter.
---
 include/stdex/parser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 49b091a..e1e2c87 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5867,8 +5867,9 @@ namespace stdex
 				if (this->interval.end < end && text[this->interval.end] == '=')
 					this->interval.end++;
 				else
-					while (m_space.match(text, this->interval.end, end, flags))
-						this->interval.end = m_space.interval.end;
+					goto error;
+				while (m_space.match(text, this->interval.end, end, flags))
+					this->interval.end = m_space.interval.end;
 				if (value.match(text, this->interval.end, end, flags))
 					this->interval.end = value.interval.end;
 				else
-- 
2.43.0


From 0063e77d28a459515a58943d8ecc22f986edbb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 090/131] fix: do not overflow on long HTTP weight factors

---
 include/stdex/parser.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index e1e2c87..2d94937 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6471,12 +6471,12 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				stdex_assert(text || start >= end);
-				size_t celi_del = 0, decimalni_del = 0, decimalni_del_n = 1;
+				double celi_del = 0, decimalni_del = 0, decimalni_del_n = 1;
 				this->interval.end = start;
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
 						if ('0' <= text[this->interval.end] && text[this->interval.end] <= '9') {
-							celi_del = celi_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
+							celi_del = celi_del * 10 + (text[this->interval.end] - '0');
 							this->interval.end++;
 						}
 						else if (text[this->interval.end] == '.') {
@@ -6484,8 +6484,8 @@ namespace stdex
 							for (;;) {
 								if (this->interval.end < end && text[this->interval.end]) {
 									if ('0' <= text[this->interval.end] && text[this->interval.end] <= '9') {
-										decimalni_del = decimalni_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
-										decimalni_del_n *= 10;
+										decimalni_del_n /= 10;
+										decimalni_del += (text[this->interval.end] - '0') * decimalni_del_n;
 										this->interval.end++;
 									}
 									else
@@ -6503,7 +6503,7 @@ namespace stdex
 						break;
 				}
 				if (start < this->interval.end) {
-					value = (float)((double)celi_del + (double)decimalni_del / decimalni_del_n);
+					value = (float)(celi_del + decimalni_del);
 					this->interval.start = start;
 					return true;
 				}
-- 
2.43.0


From 2cea1a3fe279415726b5f2e1c655414afc04df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 091/131] fix: do not stop at empty elements in HTTP value
 lists

---
 include/stdex/parser.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 2d94937..06a683e 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7170,11 +7170,7 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				while (start < end) {
-					while (start < end && text[start] && stdex::isspace(text[start])) start++;
-					if (start < end && text[start] == ',') {
-						start++;
-						while (start < end&& text[start] && stdex::isspace(text[start])) start++;
-					}
+					while (start < end && text[start] && (text[start] == ',' || stdex::isspace(text[start]))) start++;
 					KEY el;
 					if (el.match(text, start, end, flags)) {
 						start = el.interval.end;
-- 
2.43.0


From 32e5186aa4fb44bd20edca1e5febc7e88a5c9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 092/131] fix: skip any escaped character in CSS strings and
 URIs

The quote after an escaped backslash was taken for an escaped quote, and an
escaped parenthesis for the end of the URI.
---
 include/stdex/parser.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 06a683e..c8adb02 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7526,9 +7526,9 @@ namespace stdex
 						}
 						if (this->interval.end + 1 < end &&
 							text[this->interval.end] == '\\' &&
-							(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+							text[this->interval.end + 1])
 						{
-							// Escaped quote
+							// Escaped character
 							this->interval.end = this->interval.end + 2;
 						}
 						else
@@ -7605,9 +7605,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								text[this->interval.end + 1])
 							{
-								// Escaped quote
+								// Escaped character
 								this->interval.end = this->interval.end + 2;
 							}
 							else
@@ -7638,7 +7638,14 @@ namespace stdex
 								this->interval.end++;
 								return true;
 							}
-							if (ctype.is(ctype.space, text[this->interval.end]))
+							if (this->interval.end + 1 < end &&
+								text[this->interval.end] == '\\' &&
+								text[this->interval.end + 1])
+							{
+								// Escaped character
+								this->content.end = this->interval.end = this->interval.end + 2;
+							}
+							else if (ctype.is(ctype.space, text[this->interval.end]))
 								this->interval.end++;
 							else
 								this->content.end = ++this->interval.end;
@@ -7719,9 +7726,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								text[this->interval.end + 1])
 							{
-								// Escaped quote
+								// Escaped character
 								this->interval.end = this->interval.end + 2;
 							}
 							else
-- 
2.43.0


From bc54106c6ac54741b68d54399e893b089895b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 093/131] fix: keep the text before a marked section of an HTML
 document

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index a46ac67..346ea4d 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1707,6 +1707,8 @@ namespace stdex
 						else
 							m_num_valid_conditions++;
 
+						if (m_num_parsed < i)
+							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
 						i = m_num_parsed = m_condition_start.interval.end;
 						continue;
 					}
-- 
2.43.0


From 15f4d8b9a62b38f323aea7cfba80bb3238b553fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 094/131] fix: do not count CDATA sections as conditional
 sections of an HTML document

---
 include/stdex/html.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 346ea4d..266f4cb 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1700,8 +1700,6 @@ namespace stdex
 							m_is_cdata = true;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "RCDATA", SIZE_MAX) == 0)
 							m_is_rcdata = true;
-						if (m_num_invalid_conditions)
-							m_num_invalid_conditions++;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "IGNORE", SIZE_MAX) == 0)
 							m_num_invalid_conditions++;
 						else
-- 
2.43.0


From 523b5e1a956c43ca87cca972bfdbf14c4fce5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 095/131] fix: skip marked sections nested in an ignored one

---
 include/stdex/html.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 266f4cb..5afc5fe 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1682,6 +1682,11 @@ namespace stdex
 							i = m_num_parsed = m_condition_end.interval.end;
 							continue;
 						}
+						if (m_condition_start.match(source, i, num_chars)) {
+							m_num_invalid_conditions++;
+							i = m_num_parsed = m_condition_start.interval.end;
+							continue;
+						}
 						goto next_char;
 					}
 
-- 
2.43.0


From 6a9501e0b1402468145eac0a8583841a7e979b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 096/131] fix: keep CDATA section delimiters when linking an
 HTML document

---
 include/stdex/html.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5afc5fe..bce7897 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1667,7 +1667,7 @@ namespace stdex
 						if (m_condition_end.match(source, i, num_chars)) {
 							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(
 								m_is_cdata ? stdex::parser::html_sequence_t::CDATA : stdex::parser::html_sequence_t::PCDATA,
-								m_num_parsed, i,
+								m_num_parsed, m_condition_end.interval.end,
 								active_element()))));
 							m_is_cdata = m_is_rcdata = false;
 							i = m_num_parsed = m_condition_end.interval.end;
@@ -1712,7 +1712,8 @@ namespace stdex
 
 						if (m_num_parsed < i)
 							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
-						i = m_num_parsed = m_condition_start.interval.end;
+						i = m_condition_start.interval.end;
+						m_num_parsed = m_is_cdata || m_is_rcdata ? m_condition_start.interval.start : i;
 						continue;
 					}
 
-- 
2.43.0


From 118cd0638495763637aaf8e1e2bf164d07dddd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 097/131] fix: do not take a conditional comment for a marked
 section

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c8adb02..482dbed 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8319,6 +8319,8 @@ namespace stdex
 							this->interval.end++;
 							return true;
 						}
+						if (text[this->interval.end] == ']' || text[this->interval.end] == '>')
+							break;
 						if (ctype.is(ctype.space, text[this->interval.end]))
 							this->interval.end++;
 						else
-- 
2.43.0


From b762442c548e36c19760043d5160b99d5a60a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 098/131] fix: remove quotes from HTML parameter entity values

---
 include/stdex/html.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index bce7897..0fe3bc9 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1839,7 +1839,15 @@ namespace stdex
 								{
 									std::unique_ptr<entity<T, TR, AX>> e(new entity<T, TR, AX>());
 									e->name = m_tag.attributes[2].name;
-									e->value = std::move(replace_entities(source + m_tag.attributes[3].name.start, m_tag.attributes[3].name.size()));
+									auto value = m_tag.attributes[3].name;
+									if (value.size() >= 2 &&
+										(source[value.start] == '"' || source[value.start] == '\'') &&
+										source[value.end - 1] == source[value.start])
+									{
+										value.start++;
+										value.end--;
+									}
+									e->value = std::move(replace_entities(source + value.start, value.size()));
 									m_entities.push_back(std::move(e));
 								}
 
-- 
2.43.0


From fa73faf2470e32aae0df64db9f82f73e168a5445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 099/131] fix: set the end of HTML elements ended by the end of
 their parent

---
 include/stdex/html.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 0fe3bc9..29be132 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1820,7 +1820,8 @@ namespace stdex
 								{
 									e->start = starting_tag;
 									e->parent = starting_tag->parent;
-									starting_tag->end = e.get();
+									for (size_t k = j; k < m_element_stack.size(); k++)
+										m_element_stack[k]->end = e.get();
 									m_element_stack.resize(j);
 									break;
 								}
-- 
2.43.0


From 173d1b93d8eea2003ce428b76d23a99808a2b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 100/131] fix: do not crash on unclosed non-localizable HTML
 elements

---
 include/stdex/html.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 29be132..c109176 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2553,23 +2553,27 @@ namespace stdex
 							{
 								// Non-localizable
 								auto s_end = s_el_start->end;
-								stdex_assert(s_end);
+								size_t content_end =
+									s_end ? s_end->interval.start :
+									end != m_document.m_sequences.end() ? (*end)->interval.start :
+									m_document.m_num_parsed;
+								auto s_content = m_offset != end ? m_offset->get() : nullptr;
 
-								if (s->interval.end < s_end->interval.start) {
+								if (s->interval.end < content_end) {
 									if (s_el_start->code != element_t::style) {
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
 										rel.to += append_token(std::move(std::unique_ptr<text_token<T, TR, AX>>(
 											new text_token<T, TR, AX>(
 												token_t::complete,
-												m_source + s->interval.end, s_end->interval.start - s->interval.end,
+												m_source + s->interval.end, content_end - s->interval.end,
 												0,
-												m_offset->get()))),
+												s_content))),
 											token->text);
 									}
 									else {
 										// Partially parse CSS. It may contain URLs we need to make absolute.
-										auto t = parse_css(s->interval.end, s_end->interval.start);
+										auto t = parse_css(s->interval.end, content_end, s_content);
 										stdex_assert(t);
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
@@ -2629,7 +2633,7 @@ namespace stdex
 			///
 			/// Parses CSS
 			///
-			text_token<T, TR, AX>* parse_css(size_t start, size_t end)
+			text_token<T, TR, AX>* parse_css(size_t start, size_t end, sequence* s)
 			{
 				stdex::interval<size_t> section, content;
 				std::unique_ptr<text_token<T, TR, AX>> token(
@@ -2637,7 +2641,7 @@ namespace stdex
 						token_t::complete,
 						nullptr, 0,
 						0,
-						m_offset->get()));
+						s));
 
 				for (;;) {
 					if (m_css_comment.match(m_source, start, end)) {
@@ -2660,7 +2664,7 @@ namespace stdex
 							new url_token<T, TR, AX>(
 								nullptr, 0,
 								token_url_t::css,
-								m_offset->get()));
+								s));
 						css_unescape(t_url->url, m_source + content.start, content.size());
 						token->text.append(m_source + start, content.start - start);
 						append_token(std::move(t_url), token->text);
-- 
2.43.0


From 08433c2a70ca21f84064b1b47d5f9fe4894ba017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 101/131] fix: do not nest the rest of an HTML document inside
 empty elements

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index c109176..171ddeb 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2584,7 +2584,7 @@ namespace stdex
 								while (m_offset != end && m_offset->get() != s_end)
 									++m_offset;
 							}
-							else if (element_traits::is_group(s_el_start->code)) {
+							else if (s_el_start->end != s_el_start && element_traits::is_group(s_el_start->code)) {
 								auto limit = m_offset;
 								while (limit != end && limit->get() != s_el_start->end)
 									++limit;
-- 
2.43.0


From 1b283287fc310887f021b95fbf1e670f51f27b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 102/131] fix: limit recursion when parsing deeply nested HTML
 documents

---
 include/stdex/html.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 171ddeb..33e9763 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2198,7 +2198,8 @@ namespace stdex
 				m_url(url, stdex::strnlen(url, num_chars)),
 				m_parse_frames(parse_frames),
 				m_progress(progress),
-				m_source(nullptr)
+				m_source(nullptr),
+				m_depth(0)
 			{}
 
 			///
@@ -2215,6 +2216,7 @@ namespace stdex
 
 				m_source = m_document.source().data();
 				m_offset = m_document.m_sequences.begin();
+				m_depth = 0;
 				return parse(m_document.m_sequences.end());
 			}
 
@@ -2584,13 +2586,15 @@ namespace stdex
 								while (m_offset != end && m_offset->get() != s_end)
 									++m_offset;
 							}
-							else if (s_el_start->end != s_el_start && element_traits::is_group(s_el_start->code)) {
+							else if (s_el_start->end != s_el_start && element_traits::is_group(s_el_start->code) && m_depth < max_depth) {
 								auto limit = m_offset;
 								while (limit != end && limit->get() != s_el_start->end)
 									++limit;
+								m_depth++;
 								auto t = parse(limit,
 									(element_traits::is_heading(s_el_start->code) || s_el_start->code == element_t::dt || s_el_start->code == element_t::title ? is_title : 0) |
 									(element_traits::is_list(s_el_start->code) ? is_bullet : 0));
+								m_depth--;
 								rel.from = s->interval.start;
 								token->mapping.push_back(rel);
 								rel.to += t->append_tag(token->text);
@@ -2691,6 +2695,8 @@ namespace stdex
 			const T* m_source;                       ///< HTML source code
 			token_vector m_tokens;                   ///< HTML token storage
 			sequence_store::const_iterator m_offset; ///< Index of active section
+			size_t m_depth;                          ///< Current nesting depth
+			static constexpr size_t max_depth = 256; ///< Elements nested deeper are not parsed to tokens of their own to limit the recursion
 
 			// For detecting URLs in CSS
 			stdex::parser::basic_css_cdo<T> m_css_cdo;
-- 
2.43.0


From 4d85ef39ce7270795babb8fd68674fb9254631d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 103/131] fix: map entities in HTML text to right positions

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 33e9763..005838b 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2482,7 +2482,7 @@ namespace stdex
 					if (s->type == stdex::parser::html_sequence_t::text) {
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
-						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, rel, &token->mapping);
+						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, stdex::mapping<size_t>(s->interval.start, 0), &token->mapping);
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
-- 
2.43.0


From 7d4b5b6d1d671e9ecedf9c2ed8ef4e4c4043374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 104/131] fix: do not take characters of HTML text for token
 tags

---
 include/stdex/html.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 005838b..6015ef1 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2483,6 +2483,10 @@ namespace stdex
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
 						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, stdex::mapping<size_t>(s->interval.start, 0), &token->mapping);
+						// Entities may decode to token_tag_start and token_tag_end too.
+						for (size_t i = rel.to; i < token->text.size(); i++)
+							if (token->text[i] == static_cast<T>(token_tag_start) || token->text[i] == static_cast<T>(token_tag_end))
+								token->text[i] = '?';
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
-- 
2.43.0


From 49303bfc82726e8f87eb9c9780dd02ecb5b485ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 105/131] fix: add missing tokens when merging token lists

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 6015ef1..8564c3f 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2382,7 +2382,7 @@ namespace stdex
 			{
 				for (auto i2 = b.begin(); i2 != b.end(); ++i2) {
 					auto t2 = *i2;
-					for (auto i1 = a.begin(); i1 != a.end(); ++i1) {
+					for (auto i1 = a.begin(); ; ++i1) {
 						if (i1 == a.end()) {
 							a.push_back(t2);
 							break;
-- 
2.43.0


From 5724fc62a610e86d7bb8fed89602cd1367535958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 106/131] fix: do not truncate characters when comparing HTML
 element names

---
 include/stdex/html.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 8564c3f..10c6011 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1478,12 +1478,12 @@ namespace stdex
 							break;
 						}
 
-						auto chr = static_cast<char>(stdex::tolower(name[i2++]));
-						if (mapping[m].name[i1] > chr) {
+						auto chr = static_cast<T>(stdex::tolower(name[i2++]));
+						if (static_cast<T>(mapping[m].name[i1]) > chr) {
 							r = 1;
 							break;
 						}
-						if (mapping[m].name[i1] < chr) {
+						if (static_cast<T>(mapping[m].name[i1]) < chr) {
 							r = -1;
 							break;
 						}
-- 
2.43.0


From a333b48875fa0d181804307a739e4bccaf6bcd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 107/131] fix: escape quotes in HTML attribute text

---
 include/stdex/html.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 10c6011..0e4214e 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2089,6 +2089,7 @@ namespace stdex
 			has_text = 1 << 1,   ///< Token text contains text
 			is_title = 1 << 2,   ///< Token text contains title text
 			is_bullet = 1 << 3,  ///< Token text contains bullet text
+			is_attribute = 1 << 4, ///< Token text is an attribute value
 		};
 
 		///
@@ -2277,6 +2278,10 @@ namespace stdex
 							source += root[i++];
 					}
 				}
+				else if ((t->text_type & has_text) && (t->text_type & is_attribute)) {
+					// Token contains attribute value: mind the quotes too.
+					escape(source, t->text.data(), t->text.size());
+				}
 				else if (t->text_type & has_text) {
 					// Token contains no references to other tokens. But, it does contain text that requires escaping.
 					escape_min(source, t->text.data(), t->text.size());
@@ -2528,7 +2533,7 @@ namespace stdex
 									std::unique_ptr<text_token<T, TR, AX>> t_value(new text_token<T, TR, AX>(
 										token_t::complete,
 										nullptr, 0,
-										has_text | is_title,
+										has_text | is_title | is_attribute,
 										s.get()));
 									stdex::mapping<size_t> rel_value(a.value.start, 0);
 									t_value->mapping.push_back(rel_value);
-- 
2.43.0


From 4a7ca739634cfc69b47db7b5f8ca81857ee64f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 108/131] fix: quote HTML attribute values when their entities
 get replaced

---
 include/stdex/html.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 0e4214e..b1b9caf 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2517,6 +2517,11 @@ namespace stdex
 									stdex::isblank(m_source + a.value.start, a.value.size()))
 									continue;
 
+								// Nonquoted value might need quotes after entities have been replaced.
+								const bool add_quotes =
+									m_source[a.value.start - 1] != '"' && m_source[a.value.start - 1] != '\'' &&
+									stdex::strnchr(m_source + a.value.start, a.value.size(), static_cast<T>('&')) != stdex::npos;
+
 								if (element_traits::is_uri(s_el->code, m_source + a.name.start, a.name.size())) {
 									t->text.append(m_source + offset, a.value.start - offset);
 									std::unique_ptr<url_token<T, TR, AX>> t_url(new url_token<T, TR, AX>(
@@ -2524,7 +2529,9 @@ namespace stdex
 										token_url_t::sgml,
 										s.get()));
 									stdex::sgml2strcat(t_url->url, m_source + a.value.start, a.value.size());
+									if (add_quotes) t->text += '"';
 									append_token(std::move(t_url), t->text);
+									if (add_quotes) t->text += '"';
 									t->text_type |= has_tokens;
 									offset = a.value.end;
 								}
@@ -2538,7 +2545,9 @@ namespace stdex
 									stdex::mapping<size_t> rel_value(a.value.start, 0);
 									t_value->mapping.push_back(rel_value);
 									stdex::sgml2strcat(t_value->text, m_source + a.value.start, a.value.size(), 0, rel_value, &t_value->mapping);
+									if (add_quotes) t->text += '"';
 									append_token(std::move(t_value), t->text);
+									if (add_quotes) t->text += '"';
 									t->text_type |= has_tokens;
 									offset = a.value.end;
 								}
-- 
2.43.0


From 92ea498c9454901aaa4a80d9013bcfada2b2086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 109/131] fix: escape parentheses and spaces of unquoted CSS
 URLs

---
 include/stdex/html.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index b1b9caf..eda4bd9 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -497,6 +497,9 @@ namespace stdex
 				case '\t': dst += "\\t"; break;
 				case '\"': dst += "\\\""; break;
 				case '\'': dst += "\\'"; break;
+				case '(': dst += "\\("; break;
+				case ')': dst += "\\)"; break;
+				case ' ': dst += "\\ "; break;
 				default: dst += src[i]; break;
 				}
 			}
@@ -523,6 +526,9 @@ namespace stdex
 				case L'\t': dst += L"\\t"; break;
 				case L'\"': dst += L"\\\""; break;
 				case L'\'': dst += L"\\'"; break;
+				case L'(': dst += L"\\("; break;
+				case L')': dst += L"\\)"; break;
+				case L' ': dst += L"\\ "; break;
 				default: dst += src[i]; break;
 				}
 			}
-- 
2.43.0


From c0f6d1df73bedbf971da29cf5ed50164802885d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 110/131] fix: accept rows directly in HTML tables

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index eda4bd9..503c344 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1215,7 +1215,7 @@ namespace stdex
 				case element_t::style:         return child == element_t::CDATA;
 				case element_t::sub:           return is_inline(child);
 				case element_t::sup:           return is_inline(child);
-				case element_t::table:         return child == element_t::caption || child == element_t::col || child == element_t::colgroup || child == element_t::thead || child == element_t::tfoot || child == element_t::tbody;
+				case element_t::table:         return child == element_t::caption || child == element_t::col || child == element_t::colgroup || child == element_t::thead || child == element_t::tfoot || child == element_t::tbody || child == element_t::tr;
 				case element_t::tbody:         return child == element_t::tr;
 				case element_t::td:            return is_flow(child);
 				case element_t::textarea:      return child == element_t::PCDATA;
-- 
2.43.0


From 29413c799532b7382fd4155bcaab8ec8ac985890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 111/131] fix: do not wait for nor take data on null socket
 reads

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index e21aee6..f2538d3 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2484,6 +2484,10 @@ namespace stdex
 				_Out_writes_bytes_to_opt_(length, return) void* data, _In_ size_t length)
 			{
 				stdex_assert(data || !length);
+				if (!length) _Unlikely_ {
+					m_state = state_t::ok;
+					return 0;
+				}
 				constexpr int block_size = 0x10000000;
 				for (size_t to_read = length;;) {
 					auto num_read = recv(m_h, reinterpret_cast<char*>(data),
-- 
2.43.0


From 021c776d89a78a01c04df807a5935ca48b768c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 112/131] fix: do not keep the old string when
 memory_file::read_str() reads a truncated one

---
 include/stdex/stream.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f2538d3..ca9fd6e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3700,10 +3700,9 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
 #endif
-				if (CHECK_STREAM_STATE && !ok()) _Unlikely_ {
-					data.clear();
+				data.clear();
+				if (CHECK_STREAM_STATE && !ok()) _Unlikely_
 					return *this;
-				}
 				size_t end_offset = m_offset + sizeof(uint32_t);
 				if (end_offset <= m_size) {
 					uint32_t num_chars = LE2HE(*reinterpret_cast<uint32_t*>(&m_data[m_offset]));
@@ -3718,8 +3717,7 @@ namespace stdex
 #endif
 						return *this;
 					}
-					if (end_offset <= m_size)
-						data.assign(start, reinterpret_cast<T*>(&m_data[m_size]));
+					data.assign(start, start + (m_size - m_offset) / sizeof(T));
 				}
 				m_offset = m_size;
 				m_state = state_t::eof;
-- 
2.43.0


From 1fd056d28eeb079a7b719ba0438668a2a2f0c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 113/131] fix: report flush failure of cached_file destructor
 instead of terminating

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index ca9fd6e..8e8a36a 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1878,8 +1878,10 @@ namespace stdex
 			{
 				if (m_source) {
 					flush_cache();
-					if (!ok()) _Unlikely_
+					if (!ok()) _Unlikely_ {
+						m_source = nullptr; // The source is about to be destroyed: base destructor must not use it.
 						throw std::system_error(sys_error(), std::system_category(), "failed to flush cache"); // Data loss occurred
+					}
 					m_source->seekbeg(m_offset);
 #if SET_FILE_OP_TIMES
 					m_source->set_atime(m_atime);
-- 
2.43.0


From 083603de1d4c0790f277eeb60b553cba684a4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 114/131] fix: do not drop cached data nor truncate at wrong
 position when cache::truncate() fails

---
 include/stdex/stream.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8e8a36a..84ba136 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2124,6 +2124,13 @@ namespace stdex
 				m_atime = m_mtime = time_point::now();
 #endif
 				m_source->seekbeg(m_offset);
+				m_state = m_source->state();
+				if (!ok()) _Unlikely_
+					return;
+				m_source->truncate();
+				m_state = m_source->state();
+				if (!ok()) _Unlikely_
+					return;
 				if (m_cache.region.end <= m_offset) {
 					// Truncation does not affect cache.
 				}
@@ -2135,8 +2142,6 @@ namespace stdex
 					// Truncation invalidates cache.
 					m_cache.status = cache_t::cache_t::status_t::empty;
 				}
-				m_source->truncate();
-				m_state = m_source->state();
 			}
 
 			virtual time_point ctime() const
-- 
2.43.0


From d3888457114069da75abbf99055028b111153ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 115/131] fix: do not let HTML ins and del elements end
 elements with inline content

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 503c344..85173e9 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -921,6 +921,8 @@ namespace stdex
 			{
 				return
 					code == element_t::PCDATA ||
+					code == element_t::ins ||
+					code == element_t::del ||
 					is_fontstyle(code) ||
 					is_phrase(code) ||
 					is_special(code) ||
-- 
2.43.0


From eab5863b4e2b4a2c9a735596769094f2bc569cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:25 +0000
Subject: [PATCH 116/131] fix: escape < in CSS to keep URLs from ending HTML
 style elements

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 85173e9..0acaec8 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -500,6 +500,7 @@ namespace stdex
 				case '(': dst += "\\("; break;
 				case ')': dst += "\\)"; break;
 				case ' ': dst += "\\ "; break;
+				case '<': dst += "\\00003C"; break; // CSS inside <style> must not contain </style> or <![CDATA[.
 				default: dst += src[i]; break;
 				}
 			}
@@ -529,6 +530,7 @@ namespace stdex
 				case L'(': dst += L"\\("; break;
 				case L')': dst += L"\\)"; break;
 				case L' ': dst += L"\\ "; break;
+				case L'<': dst += L"\\00003C"; break; // CSS inside <style> must not contain </style> or <![CDATA[.
 				default: dst += src[i]; break;
 				}
 			}
-- 
2.43.0


From cfd85e48e7ef8c2e2258e74e382dd21ff1e22265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:06 +0000
Subject: [PATCH 117/131] fix: end unknown HTML elements by their own end tags
 only

---
 include/stdex/html.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 0acaec8..00962c8 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1825,8 +1825,8 @@ namespace stdex
 							for (size_t j = m_element_stack.size(); j--; ) {
 								auto starting_tag = m_element_stack[j];
 								stdex_assert(starting_tag && starting_tag->type == stdex::parser::html_sequence_t::element_start);
-								if (starting_tag->code == e->code ||
-									(starting_tag->code == element_t::unknown && e->code == element_t::unknown && stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
+								if (starting_tag->code == e->code &&
+									(e->code != element_t::unknown || stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
 								{
 									e->start = starting_tag;
 									e->parent = starting_tag->parent;
-- 
2.43.0


From b07d38b4cf11b2844a23efd1fc9475861b7e8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:18 +0000
Subject: [PATCH 118/131] fix: create locale_utf8 where the system has no
 .UTF-8 locale

---
 include/stdex/locale.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdex/locale.hpp b/include/stdex/locale.hpp
index 4d55274..cdd8956 100644
--- a/include/stdex/locale.hpp
+++ b/include/stdex/locale.hpp
@@ -100,7 +100,13 @@ namespace stdex
 	///
 	/// Reusable UTF-8 locale
 	///
+#if defined(_WIN32)
 	const inline locale locale_utf8(create_locale(LC_ALL, ".UTF-8"));
+#elif defined(__APPLE__)
+	const inline locale locale_utf8(create_locale(LC_ALL, "en_US.UTF-8"));
+#else
+	const inline locale locale_utf8(create_locale(LC_ALL, "C.UTF-8"));
+#endif
 
 	///
 	/// Reusable default locale
-- 
2.43.0


From 1aa4bb26224d49d7e311a2328bc263b6f359ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:31 +0000
Subject: [PATCH 119/131] fix: memory_file: keep the content when memory for a
 copy cannot be allocated

The copy assignment released its own buffer before it had the new one: when
the allocation failed, size and position were left without a buffer and the
next read dereferenced a null pointer.
---
 include/stdex/stream.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 84ba136..550a5e8 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3418,14 +3418,15 @@ namespace stdex
 			memory_file& operator=(_In_ const memory_file& other)
 			{
 				if (this != std::addressof(other)) {
-					*static_cast<basic_file*>(this) = other;
-					if (m_manage && m_data)
-						free(m_data);
-					m_data = reinterpret_cast<uint8_t*>(malloc(other.m_size));
-					if (!m_data) {
+					auto data = reinterpret_cast<uint8_t*>(malloc(other.m_size));
+					if (!data) {
 						m_state = state_t::fail;
 						throw std::bad_alloc();
 					}
+					*static_cast<basic_file*>(this) = other;
+					if (m_manage && m_data)
+						free(m_data);
+					m_data = data;
 					memcpy(m_data, other.m_data, other.m_size);
 					m_offset = other.m_offset;
 					m_size = other.m_size;
-- 
2.43.0


From 0702053fcf10ef9062cba456b6980daebbe95be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:31 +0000
Subject: [PATCH 120/131] fix: memory_file: fail on sizes that overflow

reserve() of about 4/5 of SIZE_MAX or more wrapped around to a small buffer
and reported success, and write_byte() wrapped around when the end of data is
beyond SIZE_MAX. Both then wrote beyond the buffer.
---
 include/stdex/stream.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 550a5e8..65d62b8 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3523,6 +3523,10 @@ namespace stdex
 					m_state = state_t::fail;
 					return;
 				}
+				if (!tight && required > SIZE_MAX / 2) {
+					m_state = state_t::fail;
+					return;
+				}
 				size_t reserved = tight ? required : ((required + required / 4 + (default_block_size - 1)) / default_block_size) * default_block_size;
 				auto data = reinterpret_cast<uint8_t*>(realloc(m_data, reserved));
 				if (!data && reserved) _Unlikely_ {
@@ -3762,6 +3766,10 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (amount > SIZE_MAX - m_offset) _Unlikely_ {
+					m_state = state_t::fail;
+					return;
+				}
 				size_t end_offset = m_offset + amount;
 				if (end_offset > m_reserved) {
 					reserve(end_offset);
-- 
2.43.0


From d3b036324807b2cc500dfc47e9bc4c708e801e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:44 +0000
Subject: [PATCH 121/131] fix: idrec: do not close a record of which writing
 failed

Padding was written and the size updated even when the stream failed while
writing the data. The padding succeeding hid the failure and a record missing
a part of its data was reported as written.
---
 include/stdex/idrec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 26d22dd..b6931e9 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -263,6 +263,7 @@ namespace stdex {
 		template <class T_id, class T_size, T_size N_align>
 		stdex::stream::fpos_t close(_In_ stdex::stream::basic_file& stream, _In_ stdex::stream::fpos_t start)
 		{
+			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			auto end = stream.tell();
 			T_size
 				size      = static_cast<T_size>(end - start - sizeof(T_id) - sizeof(T_size)),
-- 
2.43.0


From 61789a33ee776213a893eea3c23424358b0af27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:44 +0000
Subject: [PATCH 122/131] fix: wav: report failing streams

read_cues() and remove_cues() took a failed read for the end of file and
reported success. remove_cues() did not check the output when the last chunk
was written.
---
 include/stdex/wav.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 233fe24..a25859e 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -538,9 +538,12 @@ namespace stdex
 							ordered = false;
 						cues.push_back(std::move(c));
 					}
+					if (_dat.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
 				}
+				else if (dat.state() == stdex::stream::state_t::fail) _Unlikely_
+					return false;
 				else
 					break;
 			}
@@ -553,6 +556,7 @@ namespace stdex
 					while (dat.tell() < found_block_end) {
 						id_t id;
 						dat >> id;
+						if (dat.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 						if (!dat.ok()) break;
 
 						if (id == ltxt::record::id()) {
@@ -591,8 +595,11 @@ namespace stdex
 						}
 						else if (!stdex::idrec::ignore<length_t, align>(dat)) _Unlikely_
 							return false;
+						if (dat.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 					}
 				}
+				else if (dat.state() == stdex::stream::state_t::fail) _Unlikely_
+					return false;
 				else
 					break;
 			}
@@ -616,6 +623,7 @@ namespace stdex
 			while (input.tell() < block_end) {
 				id_t id;
 				input >> id;
+				if (input.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 				if (!input.ok()) break;
 				if (std::find(std::begin(removable), std::end(removable), id) != std::end(removable)) {
 					if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
@@ -633,6 +641,7 @@ namespace stdex
 					output.write_stream(input, size);
 					if (!input.ok()) _Unlikely_ return false;
 					stdex::idrec::close<id_t, length_t, align>(output, start);
+					if (!output.ok()) _Unlikely_ return false;
 					size = static_cast<length_t>(align - size) % align;
 					if (size)
 						input.seekcur(size);
@@ -651,11 +660,12 @@ namespace stdex
 						stdex::idrec::close<id_t, length_t, align>(output, start);
 					else
 						output.seekbeg(start);
+					if (!output.ok()) _Unlikely_ return false;
 				}
 			}
 
 			output.truncate();
-			return true;
+			return output.ok();
 		}
 	}
 }
-- 
2.43.0


From 5d1bf80423d212f604886e69ca50d4890427ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:14 +0000
Subject: [PATCH 123/131] fix: idrec: do not write records to a failed stream

Writing a record to a stream that is not a file went on after an earlier write
failed, other than what write_data() and writing to files do. The success
hid that a record before it is missing.
---
 include/stdex/idrec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index b6931e9..49911fe 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -462,6 +462,7 @@ namespace stdex {
 			{
 				// Parameter r does not need to be passed by reference. It has only one field (data), which is a reference itself already.
 
+				if (!stream.ok()) _Unlikely_ return stream;
 				stdex::stream::memory_file temp;
 				auto start = r.open(temp);
 				if (!temp.ok()) _Unlikely_ return stream;
-- 
2.43.0


From 08d8bbdd58c4623bef0d93babc43046e60cc27fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:31 +0000
Subject: [PATCH 124/131] fix: basic_sys_object: do not close a handle again
 when closing it failed

---
 include/stdex/system.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/system.hpp b/include/stdex/system.hpp
index 23826dd..91651c9 100644
--- a/include/stdex/system.hpp
+++ b/include/stdex/system.hpp
@@ -184,8 +184,9 @@ namespace stdex
 		virtual void close()
 		{
 			if (m_h != TR::invalid_handle) {
-				TR::close(m_h);
-				m_h = TR::invalid_handle;
+				T h = m_h;
+				m_h = TR::invalid_handle; // The handle is gone even when closing reports a failure: do not close it again.
+				TR::close(h);
 			}
 		}
 
-- 
2.43.0


From 8d7aa4811927fe5c029c6c994f2f9e384ac17b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:08 +0000
Subject: [PATCH 125/131] fix: wav: pad skipped blocks by their size

Records are padded to even size (idrec::padding), wherever they start.
find_first aligned the absolute position instead: in a file that starts
at an odd offset it missed everything behind the first other block.
---
 include/stdex/wav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index a25859e..9a8d727 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -485,7 +485,7 @@ namespace stdex
 				}
 
 				// Block was found, but sub-ID is different.
-				end += (align - end) % align;
+				end += stdex::idrec::padding<length_t, align>(size);
 				dat.seekbeg(end);
 			}
 			return false;
-- 
2.43.0


From 1d03e6f1f3ba4c2d78d873cbf7483c9e348f227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 126/131] fix: replicator::push_back() must not end the process
 when out of memory

The worker's thread was already running when the list node could not be allocated,
and destroying a joinable thread calls std::terminate().
---
 include/stdex/stream.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 65d62b8..189d822 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1115,7 +1115,13 @@ namespace stdex
 			///
 			void push_back(_In_ basic* source)
 			{
-				m_workers.push_back(std::unique_ptr<worker>(new worker(source)));
+				// Reserve the place first: the worker must not be destroyed with its thread running.
+				m_workers.push_back(nullptr);
+				try { m_workers.back().reset(new worker(source)); }
+				catch (...) {
+					m_workers.pop_back();
+					throw;
+				}
 			}
 
 			///
-- 
2.43.0


From b38b53407474958254c80f3f74b00c8f7c97d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 127/131] fix: idrec: report records of which reading ran out
 of memory

---
 include/stdex/idrec.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 49911fe..5baded2 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -523,7 +523,11 @@ namespace stdex {
 				{
 					stdex::stream::limiter limiter(stream, size, 0);
 					limiter >> r.data;
-					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
+					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ {
+						// Reading data may fail without the stream itself failing only when out of memory.
+						if (stream.state() != stdex::stream::state_t::fail) _Unlikely_ throw std::bad_alloc();
+						return stream;
+					}
 				}
 
 				stream.seekbeg(start);
@@ -554,7 +558,11 @@ namespace stdex {
 				{
 					stdex::stream::limiter limiter(stream, size, 0);
 					limiter >> r.data;
-					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
+					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ {
+						// Reading data may fail without the stream itself failing only when out of memory.
+						if (stream.state() != stdex::stream::state_t::fail) _Unlikely_ throw std::bad_alloc();
+						return stream;
+					}
 					limiter.skip(limiter.read_limit);
 				}
 				stream.skip(padding<T_size, N_align>(size));
-- 
2.43.0


From 3345c382b776d20cdeb618b66ec72e5f955d7c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:17 +0000
Subject: [PATCH 128/131] fix: idrec, wav: report records of which writing or
 reading ran out of memory

---
 include/stdex/idrec.hpp | 3 ++-
 include/stdex/wav.hpp   | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 5baded2..6664fb0 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -465,9 +465,10 @@ namespace stdex {
 				if (!stream.ok()) _Unlikely_ return stream;
 				stdex::stream::memory_file temp;
 				auto start = r.open(temp);
-				if (!temp.ok()) _Unlikely_ return stream;
+				if (!temp.ok()) _Unlikely_ throw std::bad_alloc();
 				temp << r.data;
 				r.close(temp, start);
+				if (!temp.ok()) _Unlikely_ throw std::bad_alloc();
 				temp.seekbeg(0);
 				stream.write_stream(temp);
 
diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 9a8d727..a162ecb 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -134,6 +134,8 @@ namespace stdex
 				if (!dat.ok() || !tmp16) goto error7;
 				data.extra.seek(0);
 				data.extra.write_stream(dat, tmp16);
+				if (!data.extra.ok() && dat.state() != stdex::stream::state_t::fail) _Unlikely_
+					throw std::bad_alloc();
 				data.extra.truncate();
 
 				return dat;
@@ -172,6 +174,8 @@ namespace stdex
 			{
 				data.content.seek(0);
 				data.content.write_stream(dat);
+				if (!data.content.ok() && dat.state() != stdex::stream::state_t::fail) _Unlikely_
+					throw std::bad_alloc();
 				data.content.truncate();
 				return dat;
 			}
-- 
2.43.0


From a48c09f905393a59e569e6c97c2f474f1fdef5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:40 +0000
Subject: [PATCH 129/131] fix: vector_queue::push_front() must not add an
 element it failed to copy

---
 include/stdex/vector_queue.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 0d33d7c..dec8b4e 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -312,11 +312,12 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(m_size_max - 1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = v;
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = v;
-			return m_head;
+			return pos;
 		}
 
 		///
@@ -328,11 +329,12 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(m_size_max - 1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = std::move(v);
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = std::move(v);
-			return m_head;
+			return pos;
 		}
 
 		///
-- 
2.43.0


From 9ccb79991b3b3a2e277ab924bf0334649ac9a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:40 +0000
Subject: [PATCH 130/131] fix: charset_encoder: do not continue a conversion
 that ran out of memory

---
 include/stdex/unicode.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index 74a0cb0..2ac8f19 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -303,6 +303,7 @@ namespace stdex
 			}
 #else
 			dst.reserve(dst.size() + count_src);
+			clear(); // Appending to dst may have thrown in the middle of the previous conversion.
 			T_to buf[1024 / sizeof(T_to)];
 			size_t src_size = stdex::mul(sizeof(T_from), count_src);
 			for (;;) {
-- 
2.43.0


From 6911ad7b4af6856079baf25cc8c99777a7f2d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:54 +0000
Subject: [PATCH 131/131] fix: async_reader, async_writer, replicator: an
 exception of a stream must not end the process

---
 include/stdex/stream.hpp | 65 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 5 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 189d822..e314d5b 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -28,6 +28,7 @@
 #endif
 #include <chrono>
 #include <condition_variable>
+#include <exception>
 #include <list>
 #include <memory>
 #include <set>
@@ -1168,6 +1169,7 @@ namespace stdex
 					if (ok() && !_w->source->ok())
 						m_state = _w->source->state();
 				}
+				rethrow();
 				return num_written;
 			}
 
@@ -1205,13 +1207,17 @@ namespace stdex
 						case op_t::quit:
 							return;
 						case op_t::write:
-							num_written = source->write(data, length);
+							num_written = 0;
+							try { num_written = source->write(data, length); }
+							catch (...) { exception = std::current_exception(); }
 							break;
 						case op_t::close:
-							source->close();
+							try { source->close(); }
+							catch (...) { exception = std::current_exception(); }
 							break;
 						case op_t::flush:
-							source->flush();
+							try { source->flush(); }
+							catch (...) { exception = std::current_exception(); }
 							break;
 						case op_t::noop:;
 						}
@@ -1233,6 +1239,7 @@ namespace stdex
 				const void* data; ///< Data to write
 				size_t length; ///< Byte limit of data to write
 				size_t num_written; ///< Number of bytes written
+				std::exception_ptr exception; ///< Exception thrown by the operation
 				std::mutex mutex;
 				std::condition_variable cv;
 			};
@@ -1255,6 +1262,24 @@ namespace stdex
 					if (ok())
 						m_state = _w->source->state();
 				}
+				rethrow();
+			}
+
+			///
+			/// Passes the first exception thrown by streams to the caller
+			///
+			void rethrow()
+			{
+				std::exception_ptr exception;
+				for (auto& w : m_workers) {
+					if (w->exception && !exception)
+						exception = w->exception;
+					w->exception = nullptr;
+				}
+				if (exception) _Unlikely_ {
+					m_state = state_t::fail;
+					std::rethrow_exception(exception);
+				}
 			}
 
 			std::list<std::unique_ptr<worker>> m_workers;
@@ -1291,6 +1316,10 @@ namespace stdex
 					uint8_t* ptr; size_t num_read;
 					std::tie(ptr, num_read) = m_ring.front();
 					if (!ptr) _Unlikely_ {
+						if (m_exception && to_read == length && length) _Unlikely_ {
+							m_state = state_t::fail;
+							std::rethrow_exception(m_exception);
+						}
 						m_state = to_read < length || !length ? state_t::ok : m_source->state();
 						return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 					}
@@ -1315,7 +1344,12 @@ namespace stdex
 					std::tie(ptr, num_write) = m_ring.back();
 					if (!ptr) _Unlikely_
 						break;
-					num_write = m_source->read(ptr, num_write);
+					try { num_write = m_source->read(ptr, num_write); }
+					catch (...) {
+						m_exception = std::current_exception();
+						m_ring.quit();
+						break;
+					}
 					m_ring.push(num_write);
 					if (!m_source->ok()) {
 						m_ring.quit();
@@ -1326,6 +1360,7 @@ namespace stdex
 
 		protected:
 			ring<uint8_t, N_cap> m_ring;
+			std::exception_ptr m_exception; ///< Exception thrown by the source
 			std::thread m_worker;
 		};
 
@@ -1358,6 +1393,7 @@ namespace stdex
 					std::tie(ptr, num_write) = m_ring.back();
 					if (!ptr) _Unlikely_ {
 						m_state = state_t::fail;
+						rethrow();
 						return length - to_write;
 					}
 					if (to_write < num_write)
@@ -1376,6 +1412,7 @@ namespace stdex
 			virtual void flush()
 			{
 				m_ring.sync();
+				rethrow();
 				if (m_source->state() == state_t::fail) _Unlikely_ {
 					m_state = state_t::fail;
 					return;
@@ -1390,9 +1427,21 @@ namespace stdex
 				converter::close();
 				if (!flushed) _Unlikely_
 					m_state = state_t::fail; // Data loss occurred
+				rethrow();
 			}
 
 		protected:
+			///
+			/// Passes the exception thrown by the source to the caller
+			///
+			void rethrow()
+			{
+				if (m_exception) _Unlikely_ {
+					m_state = state_t::fail;
+					std::rethrow_exception(m_exception);
+				}
+			}
+
 			void process()
 			{
 				for (;;) {
@@ -1400,7 +1449,12 @@ namespace stdex
 					std::tie(ptr, num_read) = m_ring.front();
 					if (!ptr)
 						break;
-					num_read = m_source->write(ptr, num_read);
+					try { num_read = m_source->write(ptr, num_read); }
+					catch (...) {
+						m_exception = std::current_exception();
+						m_ring.quit();
+						break;
+					}
 					bool succeeded = m_source->ok(); // After pop(), flush() may be using m_source already.
 					m_ring.pop(num_read);
 					if (!succeeded) {
@@ -1412,6 +1466,7 @@ namespace stdex
 
 		protected:
 			ring<uint8_t, N_cap> m_ring;
+			std::exception_ptr m_exception; ///< Exception thrown by the source
 			std::thread m_worker;
 		};
 
-- 
2.43.0

