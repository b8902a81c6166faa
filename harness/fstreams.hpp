// Streams with scripted short counts and faults, an ideal byte-array file, and a history stepper for seekable files.
#pragma once
#include "vh.hpp"
#include <stdex/stream.hpp>

namespace vh
{
	namespace sx = stdex::stream;
	using state_t = sx::state_t;
	inline const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }

	// Non-seekable stream that keeps to the documented contract of read() and write(): reads may be short, end, or fail;
	// a write that is not complete fails.
	struct FaultStream : public sx::basic
	{
		std::vector<uint8_t> in, out;
		size_t pos = 0;
		size_t read_cap = SIZE_MAX;            // most bytes per read
		uint64_t read_rng = 0;                 // non-zero: random cap per read
		size_t fail_read_at = SIZE_MAX;        // reads fail at this position of `in`
		size_t fail_write_at = SIZE_MAX;       // writes fail once this many bytes have been accepted
		bool transient = false;                // fails once only
		bool end_with_data = false;            // the read that gets the last bytes reports the end (or the failure) too
		bool fail_flush = false;
		bool threaded = false;                 // inject delays
		size_t at_close = SIZE_MAX;              // bytes accepted before close()
		unsigned reads = 0, writes = 0, flushes = 0, closes = 0;
		Rng jit{ 1 };

		virtual size_t read(void* data, size_t length)
		{
			reads++;
			if (threaded) jitter(jit);
			if (!length) { m_state = state_t::ok; return 0; }
			size_t cap = read_cap;
			if (read_rng) {
				read_rng = mix(read_rng);
				cap = std::min<size_t>(cap, 1 + read_rng % (read_rng & 0x10000 ? 3 : 700));
			}
			if (pos >= fail_read_at) {
				if (transient) fail_read_at = SIZE_MAX;
				m_state = state_t::fail;
				return 0;
			}
			size_t n = std::min(std::min(length, cap), std::min(in.size(), fail_read_at) - pos);
			if (!n) { m_state = state_t::eof; return 0; }
			memcpy(data, in.data() + pos, n);
			pos += n;
			m_state = state_t::ok;
			if (end_with_data && n < length && pos == std::min(in.size(), fail_read_at))
				m_state = pos == fail_read_at ? state_t::fail : state_t::eof;
			return n;
		}

		virtual size_t write(const void* data, size_t length)
		{
			writes++;
			if (threaded) jitter(jit);
			size_t room = out.size() < fail_write_at ? fail_write_at - out.size() : 0;
			size_t n = std::min(length, room);
			auto p = static_cast<const uint8_t*>(data);
			out.insert(out.end(), p, p + n);
			if (n < length) {
				if (transient) fail_write_at = SIZE_MAX;
				m_state = state_t::fail;
			}
			else
				m_state = state_t::ok;
			return n;
		}

		virtual void flush() { flushes++; m_state = fail_flush ? state_t::fail : state_t::ok; }
		virtual void close() { closes++; at_close = out.size(); m_state = state_t::ok; }
		void set_state(state_t s) { m_state = s; }
	};

	// Ideal file: growable byte array with a position, gaps read as zeros. Optionally short reads and faults.
	struct IdealFile : public sx::basic_file
	{
		std::vector<uint8_t> d;
		uint64_t pos = 0;
		uint64_t read_rng = 0;
		// Faults: countdown of operations until one fails (-1: never).
		int fail_read_in = -1, fail_write_in = -1, fail_flush_in = -1, fail_seek_in = -1, fail_truncate_in = -1;
		bool write_partially = false;
		uint64_t faults = 0, flushes = 0;

		static bool hit(int& n) { return n >= 0 && n-- == 0; }
		virtual size_t read(void* data, size_t length)
		{
			if (!length) { m_state = state_t::ok; return 0; }
			if (hit(fail_read_in)) { faults++; m_state = state_t::fail; return 0; }
			if (pos >= d.size()) { m_state = state_t::eof; return 0; }
			size_t n = std::min<size_t>(length, d.size() - static_cast<size_t>(pos));
			if (read_rng) { read_rng = mix(read_rng); n = std::min<size_t>(n, 1 + read_rng % 9); }
			memcpy(data, d.data() + pos, n);
			pos += n;
			m_state = state_t::ok;
			return n;
		}
		virtual size_t write(const void* data, size_t length)
		{
			size_t n = length;
			m_state = state_t::ok;
			if (hit(fail_write_in)) {
				faults++;
				n = write_partially ? length / 2 : 0;
				m_state = state_t::fail;
			}
			if (n) {
				if (d.size() < pos + n) d.resize(static_cast<size_t>(pos + n));
				memcpy(d.data() + pos, data, n);
				pos += n;
			}
			return n;
		}
		virtual void flush() { flushes++; m_state = hit(fail_flush_in) ? (faults++, state_t::fail) : state_t::ok; }
		virtual sx::fpos_t seek(sx::foff_t offset, sx::seek_t how = sx::seek_t::beg)
		{
			if (hit(fail_seek_in)) { faults++; m_state = state_t::fail; return sx::fpos_max; }
			if (how == sx::seek_t::cur) offset += static_cast<sx::foff_t>(pos);
			else if (how == sx::seek_t::end) offset += static_cast<sx::foff_t>(d.size());
			if (offset < 0) { m_state = state_t::fail; return sx::fpos_max; }
			m_state = state_t::ok;
			return pos = static_cast<uint64_t>(offset);
		}
		virtual sx::fpos_t tell() const { return pos; }
		virtual sx::fsize_t size() const { return d.size(); }
		virtual void truncate() { if (hit(fail_truncate_in)) { faults++; m_state = state_t::fail; return; } d.resize(static_cast<size_t>(pos)); m_state = state_t::ok; }
	};

	inline std::vector<uint8_t> data_bytes(Rng& r, size_t n)
	{
		std::vector<uint8_t> v(n);
		uint64_t x = r.next();
		for (size_t i = 0; i < n; i++) { if (!(i & 7)) x = mix(x); v[i] = static_cast<uint8_t>(x >> (8 * (i & 7))) | 1; } // never 0: a zero is a gap
		return v;
	}

	struct Stepper
	{
		Case& c;
		sx::basic_file& f;
		IdealFile& m;
		size_t max_size = 400;      // histories stay around this size
		bool can_truncate = true, can_grow = true;
		bool use_bulk = true;       // write_stream, read_remainder
		bool throws_on_negative = true;
		const char* tag = "";
		uint64_t sg = 0, ops = 0;
		std::string trace;

		void bad(const char* key, const std::string& what)
		{
			c.fail(std::string(tag) + key, "%s; history:%s", what.c_str(), trace.size() > 700 ? trace.substr(trace.size() - 700).c_str() : trace.c_str());
		}
		void note(const std::string& s) { trace += " " + s; sg = hash_str(s, sg); ops++; }

		void expect_state(state_t want, const char* op)
		{
			if (f.state() != want) bad("state", fmt("state after %s is %s, want %s", op, sname(f.state()), sname(want)));
		}
		void compare()
		{
			if (f.tell() != m.tell()) bad("tell", fmt("position is %lld, want %lld", (long long)f.tell(), (long long)m.tell()));
			if (f.size() != m.size()) bad("size", fmt("size is %lld, want %lld", (long long)f.size(), (long long)m.size()));
		}
		void compare_data(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b, const char* op)
		{
			if (a == b) return;
			size_t i = 0;
			while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
			bad("data", fmt("%s gave %zu bytes, want %zu; first difference at %zu: %02x want %02x", op, a.size(), b.size(), i, i < a.size() ? a[i] : 0x100, i < b.size() ? b[i] : 0x100));
		}

		// One random operation on both.
		void step()
		{
			auto& r = c.rng;
			auto len = [&] { return static_cast<size_t>(r.chance(1, 4) ? r.below(max_size / 2 + 1) : r.below(24)); };
			switch (r.below(16)) {
			case 0: case 1: case 2: { // read
				size_t n = len();
				note(fmt("read(%zu)", n));
				std::vector<uint8_t> a(n + 1), b(n);
				size_t ra = f.read(a.data(), n);
				m.read_rng = 0;
				size_t rb = m.read(b.data(), n);
				a.resize(std::min(ra, n + 1)); b.resize(rb);
				if (ra != rb) bad("read-count", fmt("read(%zu) returned %zu, want %zu", n, ra, rb));
				compare_data(a, b, "read");
				expect_state(m.state(), "read");
				break;
			}
			case 3: case 4: case 5: { // write
				size_t n = len();
				if (m.pos > m.d.size() && !n) n = 1;
				if (!can_grow) n = static_cast<size_t>(m.pos < m.d.size() ? std::min<uint64_t>(n, m.d.size() - m.pos) : 0);
				if (!n && (m.pos > m.d.size() || !can_grow)) return;
				if (m.d.size() > max_size * 2 && m.pos + n > m.d.size()) return;
				auto v = data_bytes(r, n);
				note(fmt("write(%zu)", n));
				Exact<uint8_t> e(v);
				size_t ra = f.write(e.data(), n);
				m.write(v.data(), n);
				if (ra != n) bad("write-count", fmt("write(%zu) returned %zu", n, ra));
				expect_state(state_t::ok, "write");
				break;
			}
			case 6: case 7: case 8: { // seek
				auto how = r.one({ sx::seek_t::beg, sx::seek_t::cur, sx::seek_t::end });
				int64_t base = how == sx::seek_t::beg ? 0 : how == sx::seek_t::cur ? static_cast<int64_t>(m.pos) : static_cast<int64_t>(m.d.size());
				int64_t target = r.chance(1, 6) ? r.range(0, static_cast<int64_t>(m.d.size() + max_size / 4)) : r.chance(1, 8) ? static_cast<int64_t>(m.d.size()) : r.range(0, static_cast<int64_t>(m.d.size()));
				if (r.chance(1, 30)) {
					// Before the beginning: refused, position unchanged.
					note(fmt("seek(negative,%d)", (int)how));
					bool threw = false;
					sx::fpos_t p = 0;
					try { p = f.seek(-1 - base, how); }
					catch (const std::invalid_argument&) { threw = true; }
					if (!threw && (p != sx::fpos_max || f.ok())) bad("seek-negative", fmt("seek to -1 accepted, gave %lld", (long long)p));
					break;
				}
				note(fmt("seek(%lld,%d)", (long long)(target - base), (int)how));
				auto p = how == sx::seek_t::beg && r.coin() ? f.seekbeg(static_cast<sx::fpos_t>(target)) : how == sx::seek_t::cur && r.coin() ? f.seekcur(target - base) : how == sx::seek_t::end && r.coin() ? f.seekend(target - base) : f.seek(target - base, how);
				m.seek(target);
				if (p != static_cast<sx::fpos_t>(target)) bad("seek-result", fmt("seek returned %lld, want %lld", (long long)p, (long long)target));
				expect_state(state_t::ok, "seek");
				break;
			}
			case 9: // truncate
				if (!can_truncate || !r.coin()) return;
				if (m.pos > m.d.size() + max_size) return;
				note("truncate");
				f.truncate();
				m.truncate();
				expect_state(state_t::ok, "truncate");
				break;
			case 10: { // elements
				size_t size = 1 + static_cast<size_t>(r.below(5)), count = static_cast<size_t>(r.below(12));
				note(fmt("read_array(%zu,%zu)", size, count));
				std::vector<uint8_t> a(size * count + 1), b(size * count);
				size_t ra = f.read_array(a.data(), size, count);
				m.read_rng = 0;
				size_t rb = m.read(b.data(), b.size());
				if (ra != rb / size) bad("read-array-count", fmt("read_array(%zu,%zu) with %zu bytes left returned %zu", size, count, rb, ra));
				a.resize(rb); b.resize(rb);
				compare_data(a, b, "read_array");
				if (rb == size * count) expect_state(state_t::ok, "read_array");
				else if (f.ok()) bad("state", "read_array came short and the state is ok");
				break;
			}
			case 11: { // skip
				uint64_t n = r.below(30);
				note(fmt("skip(%llu)", (unsigned long long)n));
				f.skip(n);
				m.seek(static_cast<int64_t>(n), sx::seek_t::cur);
				expect_state(state_t::ok, "skip");
				break;
			}
			case 12: { // write_byte
				if (!can_grow) return;
				if (m.d.size() > max_size * 2) return;
				size_t n = 1 + static_cast<size_t>(r.below(40));
				uint8_t b = static_cast<uint8_t>(1 + r.below(255));
				note(fmt("write_byte(%zu)", n));
				f.write_byte(b, n);
				std::vector<uint8_t> v(n, b);
				m.write(v.data(), n);
				expect_state(state_t::ok, "write_byte");
				break;
			}
			case 13: { // the rest, bounded
				if (!use_bulk || !r.coin()) return;
				size_t n = r.coin() ? SIZE_MAX : r.below(max_size);
				note(fmt("read_remainder(%zd)", (ssize_t)n));
				auto a = f.read_remainder(n);
				std::vector<uint8_t> b(m.pos < m.d.size() ? std::min<uint64_t>(n, m.d.size() - m.pos) : 0);
				if (!b.empty()) memcpy(b.data(), m.d.data() + m.pos, b.size());
				m.pos += b.size();
				compare_data(a, b, "read_remainder");
				if (f.state() == state_t::fail) bad("state", "read_remainder failed");
				break;
			}
			case 14: { // from a stream with short counts
				if (!use_bulk || !can_grow || m.d.size() > max_size) return;
				FaultStream s;
				s.in = data_bytes(r, len());
				s.read_rng = r.coin() ? r.next() | 1 : 0;
				size_t amount = r.coin() ? SIZE_MAX : r.below(s.in.size() + 10);
				size_t want = std::min(amount, s.in.size());
				if (m.pos > m.d.size() && !want) return;
				note(fmt("write_stream(%zu of %zd)", s.in.size(), (ssize_t)amount));
				auto n = f.write_stream(s, amount == SIZE_MAX ? sx::fsize_max : amount);
				m.write(s.in.data(), want);
				if (n != want) bad("write-stream-count", fmt("write_stream copied %llu, want %zu", (unsigned long long)n, want));
				expect_state(state_t::ok, "write_stream");
				break;
			}
			default: {
				if (m.pos >= m.d.size()) {
					bool threw = false;
					note("read_byte");
					try { f.read_byte(); }
					catch (const std::system_error&) { threw = true; }
					if (!threw) bad("read-byte", "read_byte() at the end did not throw");
					break;
				}
				note("read_byte");
				uint8_t b = f.read_byte(), w = m.d[static_cast<size_t>(m.pos++)];
				if (b != w) bad("data", fmt("read_byte gave %02x, want %02x", b, w));
			}
			}
			compare();
		}
	};
}
