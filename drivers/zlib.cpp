// E03: compressing and decompressing filters against zlib's own one-call functions.
#include "fstreams.hpp"
#include <stdex/zlib.hpp>

using namespace vh;

static std::vector<uint8_t> content(Rng& r, size_t max)
{
	size_t n = r.size(max);
	std::vector<uint8_t> v(n);
	switch (r.below(4)) {
	case 0: for (auto& b : v) b = static_cast<uint8_t>(r.next()); break;
	case 1: for (auto& b : v) b = static_cast<uint8_t>("abc "[r.below(4)]); break;
	case 2: { uint8_t b = static_cast<uint8_t>(r.next()); for (auto& x : v) x = b; break; }
	default: for (size_t i = 0; i < n; i++) v[i] = i > 40 && r.chance(9, 10) ? v[i - 1 - r.below(40)] : static_cast<uint8_t>(r.next());
	}
	return v;
}
static std::vector<uint8_t> z_compress(const std::vector<uint8_t>& v, int level)
{
	uLongf n = compressBound(static_cast<uLong>(v.size()));
	std::vector<uint8_t> o(n);
	compress2(o.data(), &n, v.data(), static_cast<uLong>(v.size()), level);
	o.resize(n);
	return o;
}
static std::vector<uint8_t> z_expand(const std::vector<uint8_t>& z, size_t size, int& rc, size_t& used)
{
	std::vector<uint8_t> o(size + 1);
	uLongf n = static_cast<uLongf>(o.size());
	uLong m = static_cast<uLong>(z.size());
	rc = uncompress2(o.data(), &n, z.data(), &m);
	o.resize(n);
	used = m;
	return o;
}
static unsigned block(Rng& r) { return r.chance(1, 4) ? 0x10000 : 1 + static_cast<unsigned>(r.coin() ? r.below(8) : r.below(3000)); }

// Reads to the end. Returns 0: ended with eof, 1: failed, 2: exception, 3: monitor violated.
static int read_all(Case& c, stdex::zlib_reader& rd, std::vector<uint8_t>& got, size_t limit, bool continue_after_throw = false)
{
	auto& r = c.rng;
	for (size_t i = 0;; i++) {
		size_t n = r.chance(1, 10) ? 0 : 1 + (r.coin() ? r.below(8) : r.below(3000));
		Exact<uint8_t> buf(std::vector<uint8_t>(n, 0xee));
		size_t k;
		try { k = rd.read(buf.data(), n); }
		catch (const std::exception&) {
			if (continue_after_throw) {
				// Still an error or the end, with nothing more than before
				try { rd.read(buf.data(), n); } catch (const std::exception&) {}
			}
			return 2;
		}
		if (k > n) { c.fail("read-count", "read(%zu) returned %zu", n, k); return 3; }
		got.insert(got.end(), buf.p, buf.p + k);
		if (k && !rd.ok()) { c.fail("read-bytes-state", "%zu bytes read, state %s", k, sname(rd.state())); return 3; }
		if (got.size() > limit) { c.fail("read-too-much", "%zu bytes read, at most %zu can be there", got.size(), limit); return 3; }
		if (n && !k) {
			if (rd.ok()) { c.fail("read-state", "nothing read, state ok"); return 3; }
			return rd.state() == state_t::eof ? 0 : 1;
		}
	}
}

VH_GROUP(writer, 3000, 60000, 1000)
{
	auto& r = c.rng;
	auto v = content(r, r.chance(1, 8) ? 200000 : 3000);
	FaultStream s;
	int level = static_cast<int>(r.below(11)) - 1;
	unsigned bs = block(r);
	bool closed = r.chance(1, 4);
	{
		stdex::zlib_writer w(s, level, bs);
		size_t at = 0;
		while (at < v.size()) {
			size_t k = std::min(v.size() - at, r.chance(1, 8) ? 0 : 1 + (r.coin() ? r.below(10) : r.below(v.size())));
			Exact<uint8_t> x(v.data() + at, k);
			size_t n = w.write(x.data(), k);
			VH_CHECK(c, n == k && w.ok(), "write", "write(%zu) returned %zu, state %s", k, n, sname(w.state()));
			if (c.failed) return;
			at += k;
			if (r.chance(1, 10)) { w.flush(); VH_CHECK(c, w.ok(), "flush", "state %s after flush", sname(w.state())); }
		}
		if (closed) { w.close(); VH_CHECK(c, s.closes == 1 && w.ok(), "close", "closed %u times, state %s", s.closes, sname(w.state())); }
	}
	if (closed) VH_CHECK(c, s.at_close == s.out.size(), "close-loss", "%zu of %zu compressed bytes written before close", s.at_close, s.out.size());
	int rc;
	size_t used;
	auto back = z_expand(s.out, v.size(), rc, used);
	VH_CHECK(c, rc == Z_OK && back == v && used == s.out.size(), "writer", "zlib gives %d, %zu bytes, %zu expected, %zu of %zu compressed bytes used (level %d, block %u)", rc, back.size(), v.size(), used, s.out.size(), level, bs);
	// And through the other filter
	FaultStream in;
	in.in = s.out;
	in.read_rng = r.coin() ? r.next() | 1 : 0;
	std::vector<uint8_t> got;
	stdex::zlib_reader rd(in, block(r));
	int e = read_all(c, rd, got, v.size());
	VH_CHECK(c, e == 0 && got == v, "round-trip", "%zu bytes read back, %zu expected, end %d", got.size(), v.size(), e);
	c.count("bytes", v.size());
	if (v.size() > 2) c.sig(hash_bytes(v.data(), v.size(), bs * 16 + level));
}

VH_GROUP(reader, 3000, 60000, 1000)
{
	auto& r = c.rng;
	auto v = content(r, r.chance(1, 8) ? 200000 : 3000);
	auto z = z_compress(v, static_cast<int>(r.below(10)));
	FaultStream in;
	in.in = z;
	size_t extra = r.chance(1, 3) ? r.below(50) : 0; // Something else follows the compressed stream
	for (size_t i = 0; i < extra; i++) in.in.push_back(static_cast<uint8_t>(r.next()));
	in.read_rng = r.coin() ? r.next() | 1 : 0;
	std::vector<uint8_t> got;
	stdex::zlib_reader rd(in, block(r));
	int e = read_all(c, rd, got, v.size());
	VH_CHECK(c, e == 0 && got == v, "reader", "%zu bytes, %zu expected, end %d, %zu bytes follow", got.size(), v.size(), e, extra);
	c.count("trailing", extra);
	if (v.size() > 2) c.sig(hash_bytes(z.data(), z.size(), extra));
}

VH_GROUP(damaged, 4000, 100000, 1500)
{
	auto& r = c.rng;
	auto v = content(r, 3000);
	auto z = z_compress(v, 1 + static_cast<int>(r.below(9)));
	auto d = z;
	unsigned kind = static_cast<unsigned>(r.below(5));
	FaultStream in;
	size_t limit = v.size();
	switch (kind) {
	case 0: d.resize(r.below(d.size())); break;                                           // Cut
	case 1: d[r.below(d.size())] ^= static_cast<uint8_t>(1u << r.below(8)); limit = SIZE_MAX; break; // Flipped
	case 2: d = r.bytes(r.size(500)); limit = SIZE_MAX; break;                             // Anything
	case 3: d[d.size() - 1 - r.below(4)] ^= static_cast<uint8_t>(1 + r.below(255)); break;  // Wrong checksum
	default: break;                                                                       // The source fails
	}
	in.in = d;
	if (kind == 4) in.fail_read_at = r.below(d.size());
	in.read_rng = r.coin() ? r.next() | 1 : 0;
	std::vector<uint8_t> got;
	stdex::zlib_reader rd(in, block(r));
	int e = read_all(c, rd, got, limit == SIZE_MAX ? 3000 * 1100 : limit, true);
	if (e == 3) return;
	if (kind == 0 || kind == 3 || kind == 4)
		VH_CHECK(c, got.size() <= v.size() && std::equal(got.begin(), got.end(), v.begin()), "damaged-prefix", "what was read is not the beginning of the original");
	if (kind == 3) VH_CHECK(c, e == 2, "damaged-checksum", "wrong checksum not reported, end %d", e);
	if (kind == 4) VH_CHECK(c, e == 1, "damaged-fault", "failure of the source not reported, end %d", e);
	if (kind == 1 && e == 0) {
		// zlib itself finds nothing wrong and gives the same (up to where the input ends)
		z_stream q{};
		inflateInit(&q);
		std::vector<uint8_t> o(got.size() + 100);
		q.next_in = d.data(); q.avail_in = static_cast<uInt>(d.size());
		q.next_out = o.data(); q.avail_out = static_cast<uInt>(o.size());
		int rc = inflate(&q, Z_SYNC_FLUSH);
		o.resize(o.size() - q.avail_out);
		inflateEnd(&q);
		VH_CHECK(c, (rc == Z_OK || rc == Z_STREAM_END || rc == Z_BUF_ERROR) && o == got, "damaged-accepted", "zlib gives %d and %zu bytes for what was read to the end, with %zu bytes", rc, o.size(), got.size());
	}
	c.count(e == 0 ? "ended" : e == 1 ? "failed" : "rejected");
	c.sig(hash_bytes(d.data(), d.size(), kind));
}

// A stream that asks for a dictionary: an error, not an endless loop.
VH_GROUP(dictionary, 300, 3000, 100)
{
	auto& r = c.rng;
	auto v = content(r, 500);
	auto dict = r.bytes(1 + r.below(100));
	z_stream z{};
	deflateInit(&z, 6);
	deflateSetDictionary(&z, dict.data(), static_cast<uInt>(dict.size()));
	std::vector<uint8_t> d(v.size() * 2 + 200);
	z.next_in = v.data(); z.avail_in = static_cast<uInt>(v.size());
	z.next_out = d.data(); z.avail_out = static_cast<uInt>(d.size());
	deflate(&z, Z_FINISH);
	d.resize(d.size() - z.avail_out);
	deflateEnd(&z);
	FaultStream in;
	in.in = d;
	in.read_rng = r.coin() ? r.next() | 1 : 0;
	std::vector<uint8_t> got;
	stdex::zlib_reader rd(in, block(r));
	int e = read_all(c, rd, got, 0, true);
	VH_CHECK(c, e == 2 || (e == 1 && got.empty()), "dictionary", "stream with a dictionary not rejected, end %d", e);
	c.sig(hash_bytes(d.data(), d.size()));
}

// The sink fails once: reported, by write() or at the end, and everything is released (leaks are checked).
VH_GROUP(sink_faults, 2000, 40000, 500)
{
	auto& r = c.rng;
	auto v = content(r, 3000);
	auto z = z_compress(v, 6);
	FaultStream s;
	s.fail_write_at = r.below(z.size());
	s.transient = r.chance(1, 3);
	bool reported = false, closed = r.chance(1, 4);
	try {
		stdex::zlib_writer w(s, 6, block(r));
		size_t at = 0;
		while (at < v.size()) {
			size_t k = std::min<size_t>(v.size() - at, 1 + r.below(v.size()));
			size_t n = w.write(v.data() + at, k);
			VH_CHECK(c, n <= k, "write-count", "write(%zu) returned %zu", k, n);
			VH_CHECK(c, (n == k) == w.ok(), "write-fault-state", "write(%zu) returned %zu, state %s", k, n, sname(w.state()));
			if (n < k) { reported = true; break; }
			at += k;
		}
		if (closed) w.close();
	}
	catch (const std::exception&) { reported = true; }
	VH_CHECK(c, reported, "fault-lost", "failure of the sink at %zu of %zu bytes not reported", s.fail_write_at, z.size());
	c.count(reported ? "reported" : "lost");
	c.sig(hash_bytes(v.data(), v.size(), s.out.size()));
}

// More input than fits the 32-bit counters of zlib is not sampled here; levels zlib does not know are refused.
VH_GROUP(bad_level, 40, 200, 5)
{
	FaultStream s;
	int level = c.rng.coin() ? 10 + static_cast<int>(c.rng.below(100)) : -2 - static_cast<int>(c.rng.below(100));
	bool thrown = false;
	try { stdex::zlib_writer w(s, level); } catch (const std::runtime_error&) { thrown = true; }
	VH_CHECK(c, thrown && s.out.empty(), "bad-level", "level %d accepted", level);
	c.sig(mix(level));
}

VH_MAIN
