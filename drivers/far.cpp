// Positions, lengths and amounts that do not fit into 32 bits.
#include "fstreams.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace vh;

// Ideal file that keeps only pages somebody wrote to. The rest is zeros.
struct SparseFile : public sx::basic_file
{
	static constexpr uint64_t page = 256;
	std::map<uint64_t, std::vector<uint8_t>> pages;
	uint64_t pos = 0, len = 0, read_rng = 0;

	virtual size_t read(void* data, size_t length)
	{
		m_state = state_t::ok;
		if (!length) return 0;
		if (pos >= len) { m_state = state_t::eof; return 0; }
		size_t n = static_cast<size_t>(std::min<uint64_t>(length, len - pos));
		if (read_rng) { read_rng = mix(read_rng); n = std::min<size_t>(n, 1 + read_rng % 900); }
		auto p = static_cast<uint8_t*>(data);
		for (size_t i = 0; i < n;) {
			uint64_t at = pos + i, off = at % page;
			size_t k = static_cast<size_t>(std::min<uint64_t>(n - i, page - off));
			auto it = pages.find(at / page);
			if (it == pages.end()) memset(p + i, 0, k);
			else memcpy(p + i, it->second.data() + off, k);
			i += k;
		}
		pos += n;
		return n;
	}
	virtual size_t write(const void* data, size_t length)
	{
		m_state = state_t::ok;
		auto p = static_cast<const uint8_t*>(data);
		for (size_t i = 0; i < length;) {
			uint64_t at = pos + i, off = at % page;
			size_t k = static_cast<size_t>(std::min<uint64_t>(length - i, page - off));
			auto& v = pages[at / page];
			v.resize(page);
			memcpy(v.data() + off, p + i, k);
			i += k;
		}
		pos += length;
		if (length) len = std::max(len, pos);
		return length;
	}
	virtual sx::fpos_t seek(sx::foff_t offset, sx::seek_t how = sx::seek_t::beg)
	{
		if (how == sx::seek_t::cur) offset += static_cast<sx::foff_t>(pos);
		else if (how == sx::seek_t::end) offset += static_cast<sx::foff_t>(len);
		if (offset < 0) { m_state = state_t::fail; return sx::fpos_max; }
		m_state = state_t::ok;
		return pos = static_cast<uint64_t>(offset);
	}
	virtual sx::fpos_t tell() const { return pos; }
	virtual sx::fsize_t size() const { return len; }
	virtual void truncate()
	{
		m_state = state_t::ok;
		len = pos;
		auto it = pages.lower_bound((pos + page - 1) / page);
		pages.erase(it, pages.end());
		if (pos % page) {
			auto l = pages.find(pos / page);
			if (l != pages.end()) std::fill(l->second.begin() + static_cast<ptrdiff_t>(pos % page), l->second.end(), uint8_t(0));
		}
	}
	bool same(const SparseFile& o, uint64_t& where) const
	{
		where = std::min(len, o.len);
		if (len != o.len) return false;
		static const std::vector<uint8_t> zeros(page);
		for (auto a = pages.begin(), b = o.pages.begin(); a != pages.end() || b != o.pages.end();) {
			if (b == o.pages.end() || (a != pages.end() && a->first < b->first)) { if (a->second != zeros) { where = a->first * page; return false; } ++a; }
			else if (a == pages.end() || b->first < a->first) { if (b->second != zeros) { where = b->first * page; return false; } ++b; }
			else { if (a->second != b->second) { where = a->first * page; return false; } ++a, ++b; }
		}
		return true;
	}
};

static uint64_t base(Rng& r, unsigned bits)
{
	uint64_t b = 1ull << r.range(31, static_cast<int64_t>(bits));
	return r.chance(1, 6) ? 0 : r.chance(1, 4) ? b | 1ull << 31 : b;
}

// One history on both, around a few distant places.
struct Far
{
	Case& c;
	sx::basic_file& f;
	SparseFile& m;
	unsigned bits;
	bool can_truncate, can_grow;
	uint64_t limit = UINT64_MAX; // Nothing is written behind
	std::string trace;
	uint64_t sg = 0;

	void bad(const char* key, const std::string& w) { c.fail(key, "%s; history: %s", w.c_str(), trace.size() > 600 ? trace.substr(trace.size() - 600).c_str() : trace.c_str()); }
	void note(const std::string& s) { trace += " " + s; sg = hash_str(s, sg); }
	void step(const std::vector<uint64_t>& places)
	{
		auto& r = c.rng;
		switch (r.below(11)) {
		case 0: case 1: case 2: {
			size_t n = static_cast<size_t>(r.below(r.coin() ? 20 : 700));
			note(fmt("read(%zu)", n));
			Exact<uint8_t> a(std::vector<uint8_t>(n, 0xee));
			std::vector<uint8_t> b(n);
			size_t rb = m.read(b.data(), n);
			size_t ra = f.read(a.data(), n);
			if (ra != rb || memcmp(a.data(), b.data(), std::min(ra, rb))) bad("far-read", fmt("read(%zu) gave %zu bytes, %zu expected, or they differ", n, ra, rb));
			if (f.state() != m.state()) bad("far-state", fmt("state %s after read, %s expected", sname(f.state()), sname(m.state())));
			break;
		}
		case 3: case 4: case 5: {
			size_t n = 1 + static_cast<size_t>(r.below(r.coin() ? 20 : 700));
			if (m.pos + n > limit) break;
			if (!can_grow && m.pos + n > m.len) break;
			note(fmt("write(%zu)", n));
			auto v = data_bytes(r, n);
			m.write(v.data(), n);
			size_t k = f.write(v.data(), n);
			if (k != n || !f.ok()) bad("far-write", fmt("write(%zu) returned %zu, state %s", n, k, sname(f.state())));
			break;
		}
		case 6: case 7: case 8: {
			uint64_t p = r.chance(1, 5) ? r.below(300) : r.pick(places) + static_cast<uint64_t>(r.below(600));
			if (p >= 300 && r.coin()) p -= 300;
			auto how = r.one({ sx::seek_t::beg, sx::seek_t::cur, sx::seek_t::end });
			int64_t from = how == sx::seek_t::beg ? 0 : how == sx::seek_t::cur ? static_cast<int64_t>(m.pos) : static_cast<int64_t>(m.len);
			note(fmt("seek(%lld,%d)", (long long)(static_cast<int64_t>(p) - from), (int)how));
			sx::fpos_t got;
			if (how == sx::seek_t::beg && r.coin()) got = f.seekbeg(p);
			else if (how == sx::seek_t::cur && r.coin()) got = f.seekcur(static_cast<int64_t>(p) - from);
			else if (how == sx::seek_t::end && r.coin()) got = f.seekend(static_cast<int64_t>(p) - from);
			else got = f.seek(static_cast<int64_t>(p) - from, how);
			m.seek(static_cast<int64_t>(p));
			if (got != p || !f.ok()) bad("far-seek", fmt("seek gave %llu, %llu expected", (unsigned long long)got, (unsigned long long)p));
			break;
		}
		case 9: {
			uint64_t n = r.chance(1, 3) ? r.below(400) : r.pick(places);
			if (m.pos + n >= 1ull << bits) break;
			note(fmt("skip(%llu)", (unsigned long long)n));
			f.skip(n);
			m.seek(static_cast<int64_t>(n), sx::seek_t::cur);
			break;
		}
		default:
			if (!can_truncate || !r.chance(1, 4) || m.pos > limit) break;
			note("truncate");
			f.truncate();
			m.truncate();
			if (!f.ok()) bad("far-truncate", fmt("state %s", sname(f.state())));
		}
		if (f.tell() != m.tell()) bad("far-tell", fmt("position %llu, %llu expected", (unsigned long long)f.tell(), (unsigned long long)m.tell()));
		if (f.size() != m.size()) bad("far-size", fmt("size %llu, %llu expected", (unsigned long long)f.size(), (unsigned long long)m.size()));
	}
};

static std::vector<uint64_t> some(Rng& r, unsigned bits)
{
	std::vector<uint64_t> v;
	for (size_t n = 1 + r.below(3); n; --n) v.push_back(base(r, bits));
	// Places that are the same one in the lower 32 bits
	if (r.coin()) v.push_back(v[0] & 0xffffffff);
	return v;
}
static void fill(Rng& r, SparseFile& m, const std::vector<uint64_t>& places)
{
	for (auto p : places) {
		auto v = data_bytes(r, 1 + static_cast<size_t>(r.below(900)));
		m.pos = p;
		m.write(v.data(), v.size());
	}
	m.pos = r.pick(places);
}

VH_GROUP(cached, 5000, 60000, 2000)
{
	auto& r = c.rng;
	auto places = some(r, 60);
	SparseFile src, m;
	fill(r, m, places);
	src.pages = m.pages; src.len = m.len; src.pos = m.pos;
	if (r.coin()) src.read_rng = r.next() | 1;
	{
		sx::cache f(src, r.one<size_t>({ 1, 7, 64, 100, 512, 4096 }));
		Far s{ c, f, m, 62, true, true };
		for (unsigned n = 10 + static_cast<unsigned>(r.below(40)); n && !c.failed; --n) s.step(places);
		c.sig(s.sg);
	}
	uint64_t where = 0;
	VH_CHECK(c, c.failed || src.same(m, where), "far-final", "file below the cache differs at %llu (sizes %llu and %llu)", (unsigned long long)where, (unsigned long long)src.len, (unsigned long long)m.len);
}

// A part of a file, far in it and more than 32 bits long.
VH_GROUP(windowed, 5000, 60000, 2000)
{
	auto& r = c.rng;
	auto places = some(r, 55);
	SparseFile all, m;
	fill(r, all, places);
	uint64_t offset = r.chance(1, 3) ? base(r, 55) + r.below(9) : r.pick(places) + static_cast<uint64_t>(r.below(100)), length = r.coin() ? base(r, 55) + r.below(9) + 500 : 1 + r.below(2000);
	// The file has all of it, or the end of the window were not the end of data.
	all.seek(static_cast<int64_t>(offset + length));
	uint8_t z[40] = { 1, 2, 3 };
	all.write(z, sizeof z);
	SparseFile before;
	before.pages = all.pages; before.len = all.len;
	std::vector<uint64_t> inside;
	for (auto p : places) if (p >= offset && p - offset < length) inside.push_back(p - offset);
	inside.push_back(0);
	inside.push_back(length > 600 ? length - 600 : 0);
	// Model: what is inside, shifted
	m.len = length;
	for (auto& pg : all.pages) for (uint64_t i = 0; i < SparseFile::page; i++) {
		uint64_t at = pg.first * SparseFile::page + i;
		if (pg.second[i] && at >= offset && at - offset < length) { m.pages[(at - offset) / SparseFile::page].resize(SparseFile::page); m.pages[(at - offset) / SparseFile::page][(at - offset) % SparseFile::page] = pg.second[i]; }
	}
	m.pos = 0;
	all.seek(static_cast<int64_t>(offset));
	sx::file_window f(all, offset, length);
	Far s{ c, f, m, 62, false, false };
	s.trace = fmt("window %llu+%llu:", (unsigned long long)offset, (unsigned long long)length);
	s.limit = length;
	for (unsigned n = 10 + static_cast<unsigned>(r.below(40)); n && !c.failed; --n) {
		s.step(inside);
		if (m.pos > m.len) { m.seek(static_cast<int64_t>(m.len)); f.seek(0, sx::seek_t::end); }
	}
	if (c.failed) return;
	for (auto p : inside) {
		std::vector<uint8_t> a(300), b(300);
		all.seek(static_cast<int64_t>(offset + p)); m.seek(static_cast<int64_t>(p));
		size_t n = m.read(a.data(), a.size());
		all.read(b.data(), n);
		VH_CHECK(c, std::equal(a.begin(), a.begin() + static_cast<ptrdiff_t>(n), b.begin()), "far-final", "data at %llu of the window differ", (unsigned long long)p);
	}
	c.sig(s.sg);
}

// Limits and amounts over 32 bits on a stream, and the window on it.
struct Endless : public sx::basic
{
	uint64_t at = 0, total = UINT64_MAX, written = 0, fail_at = UINT64_MAX;
	bool touch = true;
	uint64_t sum = 0;
	static uint8_t byte(uint64_t i) { return static_cast<uint8_t>((i * 0x9e3779b97f4a7c15ull) >> 56); }
	virtual size_t read(void* data, size_t length)
	{
		size_t n = static_cast<size_t>(std::min<uint64_t>(length, total - at));
		m_state = n || !length ? state_t::ok : state_t::eof;
		if (touch) for (size_t i = 0; i < n; i++) static_cast<uint8_t*>(data)[i] = byte(at + i);
		at += n;
		return n;
	}
	virtual size_t write(const void* data, size_t length)
	{
		size_t n = static_cast<size_t>(std::min<uint64_t>(length, fail_at - written));
		if (touch) for (size_t i = 0; i < n; i++) sum += mix(written + i) ^ static_cast<const uint8_t*>(data)[i];
		written += n;
		m_state = n == length ? state_t::ok : state_t::fail;
		return n;
	}
	virtual void skip(sx::fsize_t amount) { if (quick_skip) { at += amount; m_state = state_t::ok; } else basic::skip(amount); }
	bool quick_skip = true;
};

VH_GROUP(limited, 5000, 60000, 2000)
{
	auto& r = c.rng;
	Endless s;
	uint64_t rl = base(r, 62) + r.below(50), wl = base(r, 62) + r.below(50), ro = base(r, 60) + r.below(50);
	uint8_t b[200];
	if (r.coin()) {
		sx::limiter f(s, rl, wl);
		VH_CHECK(c, f.read_limit == rl && f.write_limit == wl, "far-limit", "limits changed");
		for (unsigned i = 0; i < 6; i++) {
			size_t n = 1 + static_cast<size_t>(r.below(200));
			auto at = s.at;
			size_t k = f.read(b, n);
			size_t want = static_cast<size_t>(std::min<uint64_t>(n, rl));
			VH_CHECK(c, k == want && f.state() == (want ? state_t::ok : state_t::eof) && s.at == at + k, "far-limited-read", "%zu of %zu bytes read with %llu left", k, n, (unsigned long long)rl);
			rl -= want;
			VH_CHECK(c, f.read_limit == rl, "far-limit", "%llu left to read, %llu expected", (unsigned long long)f.read_limit, (unsigned long long)rl);
			auto w = s.written;
			k = f.write(b, n);
			want = static_cast<size_t>(std::min<uint64_t>(n, wl));
			VH_CHECK(c, k == want && f.state() == (want ? state_t::ok : state_t::fail) && s.written == w + k, "far-limited-write", "%zu of %zu bytes written with %llu left", k, n, (unsigned long long)wl);
			wl -= want;
			VH_CHECK(c, f.write_limit == wl, "far-limit", "%llu left to write, %llu expected", (unsigned long long)f.write_limit, (unsigned long long)wl);
			if (c.failed) return;
		}
	}
	else {
		uint64_t wo = base(r, 60) + r.below(300);
		sx::window f(s, ro, rl, wo, wl);
		size_t n = 1 + static_cast<size_t>(r.below(200));
		size_t k = f.read(b, n);
		size_t want = static_cast<size_t>(std::min<uint64_t>(n, rl));
		VH_CHECK(c, k == want && f.ok() == (want != 0) && s.at >= ro + want, "far-window-read", "%zu of %zu bytes read at %llu, offset %llu", k, n, (unsigned long long)s.at, (unsigned long long)ro);
		for (size_t i = 0; i < k; i++) VH_CHECK(c, b[i] == Endless::byte(ro + i), "far-window-data", "byte %zu after offset %llu", i, (unsigned long long)ro);
		uint64_t passed = 0;
		for (unsigned i = 0; i < 6; i++) {
			n = 1 + static_cast<size_t>(r.below(200));
			k = f.write(b, n);
			VH_CHECK(c, k == n && f.ok(), "far-window-write", "%zu of %zu bytes", k, n);
			passed += n;
			uint64_t through = passed > wo ? std::min(passed - wo, wl) : 0;
			VH_CHECK(c, s.written == through, "far-window-passed", "%llu of %llu bytes passed, offset %llu, limit %llu", (unsigned long long)s.written, (unsigned long long)passed, (unsigned long long)wo, (unsigned long long)wl);
		}
	}
	c.sig(mix(rl ^ mix(wl) ^ ro));
}

// Amounts of data over 32 bits.
VH_GROUP(volume, 6, 12, 4)
{
	vh::arm(120);
	auto& r = c.rng;
	uint64_t n = (1ull << 32) + r.below(100000) + (r.coin() ? 1 : 0) * (1ull << 28);
	Endless in, out;
	in.touch = out.touch = false;
	in.quick_skip = false;
	switch (c.index % 6) {
	case 0: { // A part of it
		auto k = out.write_stream(in, n);
		VH_CHECK(c, k == n && in.at == n && out.written == n && out.ok(), "volume-copy", "%llu copied of %llu, %llu read, %llu written", (unsigned long long)k, (unsigned long long)n, (unsigned long long)in.at, (unsigned long long)out.written);
		break;
	}
	case 1: { // All of it
		in.total = n;
		auto k = out.write_stream(in);
		VH_CHECK(c, k == n && out.written == n && out.ok(), "volume-copy", "%llu copied of %llu, %llu written", (unsigned long long)k, (unsigned long long)n, (unsigned long long)out.written);
		break;
	}
	case 2: // The other side fails after that much
		out.fail_at = n;
		{
			auto k = out.write_stream(in, n + 1000000);
			VH_CHECK(c, out.written == n && k == n && out.state() == state_t::fail, "volume-fault", "%llu written of %llu, reported %llu, state %s", (unsigned long long)out.written, (unsigned long long)n, (unsigned long long)k, sname(out.state()));
		}
		break;
	case 3: // By reading
		in.skip(n);
		VH_CHECK(c, in.at == n && in.ok(), "volume-skip", "%llu skipped of %llu", (unsigned long long)in.at, (unsigned long long)n);
		break;
	case 4: { // Through a limiter
		sx::limiter f(in, n, 0);
		auto k = out.write_stream(f);
		VH_CHECK(c, k == n && in.at == n && out.written == n, "volume-limit", "%llu copied of %llu, %llu read", (unsigned long long)k, (unsigned long long)n, (unsigned long long)in.at);
		break;
	}
	default: { // From a file window
		SparseFile f;
		f.len = n + 5000;
		sx::file_window w(f, 1000, n);
		w.seek(0);
		sx::limiter l(w, n, 0);
		uint64_t got = 0;
		static std::vector<uint8_t> buf(1 << 24);
		while (size_t k = l.read(buf.data(), buf.size())) got += k;
		VH_CHECK(c, got == n && f.pos == n + 1000, "volume-window", "%llu read of %llu", (unsigned long long)got, (unsigned long long)n);
	}
	}
	c.count("bytes", n);
	c.sig(n);
}

// More than one system call takes.
VH_GROUP(one_call, 2, 2, 1)
{
	vh::arm(120);
	uint64_t n = (1ull << 31) + 12345 + c.rng.below(1000);
	if (c.index) n += 1ull << 31;
	void* p = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
	sx::file f("/dev/null", sx::mode_for_writing | sx::mode_open_existing);
	VH_CHECK(c, f.ok(), "one-call-open", "null device not open");
	auto k = f.write(p, n);
	VH_CHECK(c, k == n && f.ok(), "one-call-write", "%zu of %llu bytes", k, (unsigned long long)n);
	munmap(p, n);
	// The file there has to be read into is sparse, hence only as much memory as is read.
	c.count("bytes", n);
	c.sig(n);
}

// A file on disk with a few distant places, in a directory of its own.
VH_GROUP(disk, 600, 6000, 300)
{
	auto& r = c.rng;
	static std::string dir = [] { char t[] = "/tmp/vh_far_XXXXXX"; if (!mkdtemp(t)) _exit(2); static std::string d = t; atexit([] { unlink((d + "/f").c_str()); rmdir(d.c_str()); }); return d; }();
	std::string path = dir + "/f";
	auto places = some(r, 36);
	SparseFile m;
	{
		sx::file f(path.c_str(), sx::mode_for_reading | sx::mode_for_writing | sx::mode_create | sx::mode_binary);
		VH_CHECK(c, f.ok(), "far-open", "not open");
		if (!f.ok()) return;
		Far s{ c, f, m, 38, true, true };
		s.limit = 1ull << 38;
		for (unsigned n = 10 + static_cast<unsigned>(r.below(30)); n && !c.failed; --n) {
			if (r.chance(1, 8) && m.pos) {
				// A place nobody else has locked
				f.lock(m.pos, 10);
				VH_CHECK(c, f.ok(), "far-lock", "lock at %llu refused", (unsigned long long)m.pos);
				f.unlock(m.pos, 10);
				VH_CHECK(c, f.ok() && f.tell() == m.pos, "far-lock", "unlock at %llu refused, or position changed", (unsigned long long)m.pos);
			}
			s.step(places);
		}
		c.sig(s.sg);
	}
	if (c.failed) return;
	struct stat st;
	VH_CHECK(c, !stat(path.c_str(), &st) && static_cast<uint64_t>(st.st_size) == m.len, "far-disk-size", "%lld bytes on disk, %llu expected", (long long)st.st_size, (unsigned long long)m.len);
	// And again through a cache
	sx::cached_file f(path.c_str(), sx::mode_for_reading | sx::mode_for_writing | sx::mode_open_existing | sx::mode_binary, r.one<size_t>({ 16, 100, 4096 }));
	m.seek(0);
	Far s{ c, f, m, 38, true, true };
	s.trace = "cached:";
	s.limit = 1ull << 38;
	for (unsigned n = 10; n && !c.failed; --n) s.step(places);
	f.close();
	VH_CHECK(c, !stat(path.c_str(), &st) && static_cast<uint64_t>(st.st_size) == m.len, "far-disk-size", "%lld bytes on disk after caching, %llu expected", (long long)st.st_size, (unsigned long long)m.len);
}
VH_MAIN
