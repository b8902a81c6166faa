// S02: file cache against the uncached ideal file.
#include "fstreams.hpp"
#include <signal.h>
#include <sys/resource.h>
using namespace vh;
using time_point_t = sx::time_point;

static std::vector<uint8_t> slurp(const std::string& path)
{
	std::vector<uint8_t> v;
	FILE* f = fopen(path.c_str(), "rb");
	if (!f) return v;
	uint8_t b[4096];
	for (size_t n; (n = fread(b, 1, sizeof(b), f)) > 0;) v.insert(v.end(), b, b + n);
	fclose(f);
	return v;
}
static void spit(const std::string& path, const std::vector<uint8_t>& v)
{
	FILE* f = fopen(path.c_str(), "wb");
	if (!f || fwrite(v.data(), 1, v.size(), f) != v.size()) { perror("spit"); _exit(2); }
	fclose(f);
}
static size_t cache_size(Rng& r)
{
	return r.one<size_t>({ 1, 2, 3, 5, 8, 13, 16, 32, 50, 64, 100, 128, 300, 512, 4096 });
}

VH_GROUP(history, 5000, 100000, 2000)
{
	auto& r = c.rng;
	IdealFile src, m;
	src.d = m.d = data_bytes(r, r.size(500));
	src.pos = m.pos = static_cast<uint64_t>(r.below(src.d.size() + 10));
	if (r.coin()) src.read_rng = r.next() | 1;
	size_t cs = cache_size(r);
	uint64_t sg = cs, ops = 0;
	{
		sx::cache f(src, cs);
		Stepper s{ c, f, m };
		s.tag = "cache:";
		s.max_size = r.one<size_t>({ 60, 200, 600 });
		s.trace = fmt("cache %zu on %zu at %llu:", cs, src.d.size(), (unsigned long long)src.pos);
		s.compare();
		for (unsigned i = 0, n = 10 + static_cast<unsigned>(r.below(60)); i < n && !c.failed; i++) {
			if (r.chance(1, 10)) {
				auto fl = src.flushes;
				s.note("flush");
				f.flush();
				s.expect_state(state_t::ok, "flush");
				VH_CHECK(c, src.flushes == fl + 1, "cache:flush-forward", "flush not forwarded");
				s.compare();
				s.compare_data(src.d, m.d, "file below after flush");
			}
			else
				s.step();
		}
		if (!c.failed && r.chance(1, 4)) {
			s.note("close");
			f.close();
			s.compare_data(src.d, m.d, "file below after close");
		}
		sg ^= s.sg;
		ops = s.ops;
	}
	if (!c.failed) VH_CHECK(c, src.pos == m.pos, "cache:final-position", "file below is at %llu after destruction, want %llu", (unsigned long long)src.pos, (unsigned long long)m.pos);
	VH_CHECK(c, src.d == m.d, "cache:final", "file below differs after destruction: %zu bytes, want %zu", src.d.size(), m.d.size());
	c.count("operations", ops);
	if (ops > 5) c.sig(sg);
}

// A part of the file below cannot be read: everything else still can, whatever the cache blocks it shares.
struct ScratchedFile : public IdealFile
{
	uint64_t bad_start = 0, bad_end = 0;
	virtual size_t read(void* data, size_t length)
	{
		if (length && bad_start <= pos && pos < bad_end && pos < d.size()) { faults++; m_state = state_t::fail; return 0; }
		if (pos < bad_start) length = static_cast<size_t>(std::min<uint64_t>(length, bad_start - pos));
		return IdealFile::read(data, length);
	}
};
VH_GROUP(scratched, 4000, 60000, 1500)
{
	auto& r = c.rng;
	ScratchedFile src;
	IdealFile m;
	src.d = m.d = data_bytes(r, 50 + r.below(400));
	src.bad_start = r.below(src.d.size());
	src.bad_end = src.bad_start + 1 + r.below(r.coin() ? 3 : 100);
	src.bad_end = std::min<uint64_t>(src.bad_end, src.d.size()); // What is written behind can be kept in the cache
	auto bad_s = src.bad_start, bad_e = src.bad_end;
	size_t cs = cache_size(r);
	uint64_t sg = mix(cs ^ bad_s << 20);
	std::string trace = fmt("cache %zu on %zu, unreadable %llu..%llu:", cs, src.d.size(), (unsigned long long)bad_s, (unsigned long long)bad_e);
	auto bad = [&](const char* key, const std::string& w) { c.fail(key, "%s; history: %s", w.c_str(), trace.size() > 700 ? trace.substr(trace.size() - 700).c_str() : trace.c_str()); };
	{
		sx::cache f(src, cs);
		for (unsigned i = 0, n = 10 + static_cast<unsigned>(r.below(40)); i < n && !c.failed; i++) {
			switch (r.below(5)) {
			case 0: case 1: case 2: {
				size_t k = static_cast<size_t>(1 + r.below(r.coin() ? 10 : 150));
				auto p = m.pos;
				std::vector<uint8_t> a(k), b(k);
				size_t ra = f.read(a.data(), k);
				trace += fmt(" read(%zu)=%zu", k, ra);
				if (ra > k) { bad("scratch:read-count", "too much read"); return; }
				a.resize(ra);
				size_t most = p >= m.d.size() ? 0 : static_cast<size_t>(std::min<uint64_t>(k, m.d.size() - p));
				m.read(b.data(), ra);
				b.resize(ra);
				if (a != b) bad("scratch:read-data", fmt("read gave %zu bytes that differ from the content", ra));
				bool touches = most && p < bad_e && bad_s < p + most;
				if (!touches) {
					if (ra != most) bad("scratch:read-short", fmt("read(%zu) at %llu gave %zu of %zu readable bytes", k, (unsigned long long)p, ra, most));
					if (f.state() != (most ? state_t::ok : state_t::eof)) bad("scratch:read-state", fmt("readable bytes and state %s", sname(f.state())));
					c.count("reads of good bytes");
				}
				else if (p < bad_s) {
					if (!ra || !f.ok()) bad("scratch:read-before", fmt("read(%zu) at %llu gave %zu and %s before the unreadable part", k, (unsigned long long)p, ra, sname(f.state())));
					if (p + ra > bad_s) bad("scratch:read-invented", fmt("read(%zu) at %llu gave %zu bytes", k, (unsigned long long)p, ra));
					c.count("reads into the unreadable");
				}
				else {
					if (ra || f.state() != state_t::fail) bad("scratch:read-bad", fmt("read(%zu) at %llu gave %zu and %s", k, (unsigned long long)p, ra, sname(f.state())));
					c.count("reads of the unreadable");
				}
				break;
			}
			case 3: {
				size_t k = static_cast<size_t>(1 + r.below(r.coin() ? 10 : 150));
				auto v = data_bytes(r, k);
				size_t w = f.write(v.data(), k);
				trace += fmt(" write(%zu)=%zu", k, w);
				if (w > k) { bad("scratch:write-count", "too much written"); return; }
				if (f.state() != (w < k ? state_t::fail : state_t::ok)) bad("scratch:write-state", fmt("write gave %zu of %zu and %s", w, k, sname(f.state())));
				m.write(v.data(), w);
				break;
			}
			default: {
				auto p = static_cast<int64_t>(r.coin() ? r.below(m.d.size()) : bad_s > 20 ? bad_s - 20 + r.below(30) : r.below(30));
				if (r.chance(1, 3)) p = static_cast<int64_t>(bad_e + r.below(20));
				trace += fmt(" seek(%lld)", (long long)p);
				f.seek(p);
				m.seek(p);
			}
			}
			if (f.tell() != m.tell()) bad("scratch:tell", fmt("position %llu, want %llu", (unsigned long long)f.tell(), (unsigned long long)m.tell()));
			sg = hash_str(trace, sg);
		}
	}
	if (!c.failed && src.d != m.d) bad("scratch:final", fmt("file below has %zu bytes after destruction and differs, want %zu", src.d.size(), m.d.size()));
	if (src.faults) c.sig(sg);
}

// The file below fails now and then.
VH_GROUP(faults, 4000, 60000, 1500)
{
	auto& r = c.rng;
	IdealFile src, m;
	src.d = m.d = data_bytes(r, 50 + r.below(400));
	src.write_partially = r.coin();
	if (r.coin()) src.read_rng = r.next() | 1;
	size_t cs = cache_size(r);
	uint64_t sg = cs;
	std::string trace = fmt("cache %zu on %zu:", cs, src.d.size());
	auto f = std::make_unique<sx::cache>(src, cs);
	auto bad = [&](const char* key, const std::string& w) { c.fail(key, "%s; history: %s", w.c_str(), trace.size() > 700 ? trace.substr(trace.size() - 700).c_str() : trace.c_str()); };
	for (unsigned i = 0, n = 10 + static_cast<unsigned>(r.below(40)); i < n && !c.failed; i++) {
		src.fail_read_in = r.chance(1, 3) ? static_cast<int>(r.below(6)) : -1;
		src.fail_write_in = r.chance(1, 3) ? static_cast<int>(r.below(3)) : -1;
		src.fail_flush_in = r.chance(1, 3) ? 0 : -1;
		src.fail_seek_in = r.chance(1, 6) ? static_cast<int>(r.below(3)) : -1;
		src.fail_truncate_in = r.chance(1, 3) ? 0 : -1;
		auto faults = src.faults;
		switch (r.below(7)) {
		case 5: {
			// What fails does not change the content.
			if (m.pos > m.d.size() + 200) break;
			f->truncate();
			trace += fmt(" truncate%s", src.faults > faults ? "!" : "");
			if (f->ok()) m.truncate();
			if (f->ok() == src.faults > faults) bad("fault:truncate-state", fmt("truncate with%s fault gave %s", src.faults > faults ? "" : "out", sname(f->state())));
			break;
		}
		case 0: case 1: {
			size_t k = static_cast<size_t>(1 + r.below(r.coin() ? 10 : 150));
			std::vector<uint8_t> a(k), b(k);
			size_t ra = f->read(a.data(), k);
			trace += fmt(" read(%zu)=%zu%s", k, ra, src.faults > faults ? "!" : "");
			if (ra > k) { bad("fault:read-count", "too much read"); return; }
			a.resize(ra);
			size_t rb = m.read(b.data(), ra);
			b.resize(rb);
			if (a != b) bad("fault:read-data", fmt("read gave %zu bytes that differ from the content", ra));
			if (!ra) {
				bool at_end = m.pos >= m.d.size();
				if (f->ok()) bad("fault:read-state", "nothing read and state ok");
				if (f->state() == state_t::eof && !at_end) bad("fault:read-state", "failed read reported as end of file");
				if (f->state() == state_t::fail && src.faults == faults) bad("fault:read-state", "fail without a fault");
			}
			else if (!f->ok() && src.faults == faults) bad("fault:read-state", "failure without a fault");
			if (ra < k && src.faults == faults && m.pos < m.d.size() && !src.read_rng) bad("fault:read-short", "short read without a fault");
			break;
		}
		case 2: case 3: {
			size_t k = static_cast<size_t>(1 + r.below(r.coin() ? 10 : 150));
			auto v = data_bytes(r, k);
			size_t w = f->write(v.data(), k);
			trace += fmt(" write(%zu)=%zu%s", k, w, src.faults > faults ? "!" : "");
			if (w > k) { bad("fault:write-count", "too much written"); return; }
			m.write(v.data(), w);
			if (w < k && f->state() != state_t::fail) bad("fault:write-state", "short write not reported");
			if (w < k && src.faults == faults) bad("fault:write-short", "short write without a fault");
			break;
		}
		case 4: {
			auto p = static_cast<int64_t>(r.below(m.d.size() + (r.chance(1, 4) ? 200 : 1)));
			trace += fmt(" seek(%lld)", (long long)p);
			f->seek(p);
			m.seek(p);
			break;
		}
		default:
			f->flush();
			trace += fmt(" flush%s", src.faults > faults ? "!" : "");
			if (src.faults > faults ? f->ok() : !f->ok()) bad("fault:flush-state", fmt("flush with%s fault gave %s", src.faults > faults ? "" : "out", sname(f->state())));
			if (src.faults == faults && src.d != m.d) bad("fault:flush-data", fmt("file below has %zu bytes after flush, want %zu", src.d.size(), m.d.size()));
		}
		if (f->tell() != m.tell()) bad("fault:tell", fmt("position %llu, want %llu", (unsigned long long)f->tell(), (unsigned long long)m.tell()));
		if (f->size() != m.size()) bad("fault:size", fmt("size %llu, want %llu", (unsigned long long)f->size(), (unsigned long long)m.size()));
		sg = hash_str(trace, sg);
	}
	if (c.failed) return;
	c.count("faults", src.faults);
	if (r.chance(1, 3)) {
		// Data that cannot be written back when the cache goes away are reported.
		bool dirty = src.d != m.d, threw = false;
		src.fail_read_in = src.fail_flush_in = src.fail_seek_in = src.fail_truncate_in = -1;
		src.fail_write_in = 0;
		auto faults = src.faults;
		sx::cache* p = f.release();
		try { p->~cache(); }
		catch (const std::exception&) { threw = true; }
		::operator delete(static_cast<void*>(p));
		if (dirty && !threw) bad("fault:lost-at-end", "cache with unwritten data went away over a failing file without a report");
		if (threw && src.faults == faults) bad("fault:threw", "destructor threw without a fault");
		c.count("failing_destruction", dirty);
	}
	else {
		if (r.chance(1, 3)) {
			// Closing reports the same, and what could not be written back is kept.
			bool dirty = src.d != m.d, threw = false;
			src.fail_read_in = src.fail_flush_in = src.fail_seek_in = src.fail_truncate_in = -1;
			src.fail_write_in = 0;
			auto faults = src.faults;
			trace += " close";
			try { f->close(); }
			catch (const std::exception&) { threw = true; }
			if (dirty && !threw) bad("fault:lost-at-close", "cache with unwritten data closed over a failing file without a report");
			if (threw && src.faults == faults) bad("fault:threw", "close threw without a fault");
			c.count("failing_close", dirty);
			if (c.failed) return;
		}
		src.fail_read_in = src.fail_write_in = src.fail_flush_in = src.fail_seek_in = src.fail_truncate_in = -1;
		f->flush();
		if (!f->ok() || src.d != m.d) bad("fault:recover", fmt("after faults ceased, flush gave %s and %zu bytes, want %zu", sname(f->state()), src.d.size(), m.d.size()));
		f.reset();
		if (src.d != m.d) bad("fault:recover", "file below changed by destruction");
	}
	c.sig(sg);
}

// Cached file on disk, reopened in the course.
VH_GROUP(disk, 300, 4000, 120)
{
	auto& r = c.rng;
	auto path = scratch().file("cached.bin"), path2 = scratch().file("cached2.bin");
	IdealFile m, m2;
	m.d = data_bytes(r, r.size(500));
	m2.d = data_bytes(r, r.size(500));
	spit(path, m.d);
	spit(path2, m2.d);
	uint64_t sg = 0, ops = 0;
	size_t cs = cache_size(r);
	{
		sx::cached_file f(path.c_str(), sx::mode_for_reading | sx::mode_for_writing | sx::mode_open_existing, cs);
		VH_CHECK(c, f.ok() && f, "disk:open", "open failed");
		Stepper s{ c, f, m };
		s.tag = "disk:";
		for (unsigned k = 0; k < 3 && !c.failed; k++) {
			for (unsigned i = 0, n = static_cast<unsigned>(r.below(30)); i < n && !c.failed; i++) s.step();
			if (r.coin()) {
				bool closed = r.coin();
				s.note(closed ? "close,reopen" : "reopen");
				if (closed) {
					f.close();
					if (r.coin()) { s.note("changed"); spit(path, m.d = data_bytes(r, r.size(500))); }
				}
				if (r.coin()) { s.note("other"); std::swap(path, path2); std::swap(m.d, m2.d); }
				f.open(path.c_str(), (r.coin() ? sx::mode_for_reading | sx::mode_for_writing : sx::mode_for_writing) | sx::mode_open_existing | (m.pos = 0, 0));
				s.expect_state(state_t::ok, "open");
				s.compare();
				s.compare_data(slurp(path), m.d, "file after reopening");
			}
		}
		sg = s.sg;
		ops = s.ops;
	}
	VH_CHECK(c, slurp(path) == m.d && slurp(path2) == m2.d, "disk:final", "file on disk differs from what was written");
	{
		sx::cached_file f((path + ".none").c_str(), sx::mode_for_reading | sx::mode_open_existing, cs);
		VH_CHECK(c, !f.ok(), "disk:open-missing", "opening a missing file succeeded");
	}
	unlink(path.c_str());
	unlink(path2.c_str());
	c.count("operations", ops);
	if (ops > 5) c.sig(sg);
}
// What a cache has of its own it answers, the rest it passes on.
struct Attr : IdealFile
{
	uint64_t locked[2] = { 0, 0 }, unlocked[2] = { 0, 0 };
	unsigned locks = 0, unlocks = 0;
	bool fail = false;
	time_point_t t[3];
	void lock(sx::fpos_t o, sx::fsize_t n) override { locks++; locked[0] = o; locked[1] = n; m_state = fail ? state_t::fail : state_t::ok; }
	void unlock(sx::fpos_t o, sx::fsize_t n) override { unlocks++; unlocked[0] = o; unlocked[1] = n; m_state = fail ? state_t::fail : state_t::ok; }
	time_point_t ctime() const override { return t[0]; }
	time_point_t atime() const override { return t[1]; }
	time_point_t mtime() const override { return t[2]; }
	void set_ctime(time_point_t x) override { t[0] = x; }
	void set_atime(time_point_t x) override { t[1] = x; }
	void set_mtime(time_point_t x) override { t[2] = x; }
};
VH_GROUP(passing, 2000, 20000, 1000)
{
	auto& r = c.rng;
	Attr a;
	a.d = data_bytes(r, r.size(100));
	for (auto& t : a.t) t = time_point_t(time_point_t::duration(r.range(0, 1ll << 60)));
	uint64_t sg = 0;
	{
		sx::cache f(a, cache_size(r));
		for (unsigned i = 0; i < 12; i++) {
			unsigned op = static_cast<unsigned>(r.below(8));
			sg = mix(sg ^ op);
			a.fail = r.chance(1, 3);
			uint64_t o = r.below(1000), n = r.below(1000);
			unsigned l = a.locks, u = a.unlocks;
			auto was = a.d;
			switch (op) {
			case 0: f.lock(o, n); VH_CHECK(c, a.locks == l + 1 && a.locked[0] == o && a.locked[1] == n && f.ok() == !a.fail, "passing:lock", "lock(%llu, %llu) gave lock(%llu, %llu), %s", (unsigned long long)o, (unsigned long long)n, (unsigned long long)a.locked[0], (unsigned long long)a.locked[1], sname(f.state())); break;
			case 1: f.unlock(o, n); VH_CHECK(c, a.unlocks == u + 1 && a.unlocked[0] == o && a.unlocked[1] == n && f.ok() == !a.fail, "passing:unlock", "unlock(%llu, %llu) gave unlock(%llu, %llu), %s", (unsigned long long)o, (unsigned long long)n, (unsigned long long)a.unlocked[0], (unsigned long long)a.unlocked[1], sname(f.state())); break;
			case 2: case 3: case 4: {
				auto x = time_point_t(time_point_t::duration(r.range(0, 1ll << 60)));
				time_point_t want[3] = { a.t[0], a.t[1], a.t[2] };
				if (r.coin()) {
					want[op - 2] = x;
					if (op == 2) f.set_ctime(x); else if (op == 3) f.set_atime(x); else f.set_mtime(x);
				}
				VH_CHECK(c, a.t[0] == want[0] && a.t[1] == want[1] && a.t[2] == want[2] && f.ctime() == want[0] && f.atime() == want[1] && f.mtime() == want[2], "passing:time", "times differ from those of the file below (%u)", op - 2);
				break;
			}
			case 5: {
				auto at = f.tell();
				bool threw = false;
				try { f.seek(1, static_cast<sx::seek_t>(7)); } catch (const std::invalid_argument&) { threw = true; }
				VH_CHECK(c, threw && f.tell() == at, "passing:seek", "seek of unknown kind %s, position %llu was %llu", threw ? "threw" : "accepted", (unsigned long long)f.tell(), (unsigned long long)at);
				break;
			}
			case 6: f.seek(static_cast<sx::foff_t>(r.below(120))); break;
			default: { uint8_t b[20]; f.read(b, r.below(20)); }
			}
			VH_CHECK(c, a.d == was, "passing:data", "content changed");
			VH_CHECK(c, a.locks == l + (op == 0) && a.unlocks == u + (op == 1), "passing:lock", "%u locks and %u unlocks by operation %u", a.locks - l, a.unlocks - u, op);
		}
	}
	c.sig(sg ^ hash_bytes(a.d.data(), a.d.size()));
}

// A disk that takes no more: reported, also when the cached file goes away, and what was written before is there.
VH_GROUP(disk_full, 300, 3000, 60)
{
	auto& r = c.rng;
	auto path = scratch().file("full.bin");
	signal(SIGXFSZ, SIG_IGN);
	size_t limit = static_cast<size_t>(r.below(3000)), cs = cache_size(r);
	IdealFile m;
	m.d = data_bytes(r, static_cast<size_t>(r.below(limit + 1)));
	spit(path, m.d);
	struct rlimit old, lim;
	getrlimit(RLIMIT_FSIZE, &old);
	lim = old;
	bool lost = false, tried = false, threw = false, reported = false;
	std::string trace = fmt("%zu of %zu:", m.d.size(), limit);
	{
		auto f = std::make_unique<sx::cached_file>(path.c_str(), sx::mode_for_reading | sx::mode_for_writing | sx::mode_open_existing, cs);
		lim.rlim_cur = limit;
		setrlimit(RLIMIT_FSIZE, &lim);
		for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(10)); i < n; i++) {
			if (r.coin()) { auto p = static_cast<sx::foff_t>(r.below(m.d.size() + 1)); f->seek(p); m.seek(p); trace += fmt(" seek(%lld)", (long long)p); }
			auto v = data_bytes(r, 1 + static_cast<size_t>(r.below(r.coin() ? 2000 : 30)));
			size_t w = f->write(v.data(), v.size());
			trace += fmt(" write(%zu)=%zu", v.size(), w);
			if (m.pos + v.size() > limit) tried = true;
			m.write(v.data(), w);
			if (w < v.size()) { reported = true; if (f->ok()) { setrlimit(RLIMIT_FSIZE, &old); c.fail("full:state", "short write not reported;%s", trace.c_str()); return; } }
			if (r.chance(1, 4)) { f->flush(); trace += f->ok() ? " flush" : " flush!"; if (!f->ok()) reported = true; }
		}
		lost = m.d.size() > limit;
		bool by_close = r.chance(1, 3);
		try {
			if (by_close) { trace += " close"; f->close(); }
		}
		catch (const std::system_error&) { threw = true; }
		sx::cached_file* p = f.release();
		bool again = false;
		try { p->~cached_file(); }
		catch (const std::system_error&) { again = true; }
		::operator delete(static_cast<void*>(p));
		setrlimit(RLIMIT_FSIZE, &old);
		threw |= again;
	}
	if (lost) VH_CHECK(c, threw, "full:silent", "data beyond what the disk takes are gone without a report%s;%s", reported ? " at the end" : "", trace.c_str());
	else {
		VH_CHECK(c, !threw && (tried || !reported), "full:alarm", "failure reported though all fits;%s", trace.c_str());
		auto got = slurp(path);
		VH_CHECK(c, got == m.d, "full:data", "%zu bytes on disk, want %zu;%s", got.size(), m.d.size(), trace.c_str());
	}
	unlink(path.c_str());
	c.count(lost ? "over" : "fit");
	c.sig(hash_str(trace));
}
// File opened for reading only: what is read is right, and nothing written to it is lost without a report.
VH_GROUP(readonly, 600, 6000, 300)
{
	auto& r = c.rng;
	auto path = scratch().file("readonly.bin");
	IdealFile m;
	auto was = m.d = data_bytes(r, 1 + r.size(r.coin() ? 100 : 3000));
	spit(path, m.d);
	std::string trace;
	bool dirty = false, threw = false, told = false;
	{
		auto f = std::make_unique<sx::cached_file>(path.c_str(), sx::mode_for_reading | sx::mode_open_existing | (r.coin() ? sx::mode_binary : 0), cache_size(r));
		VH_CHECK(c, f->ok() && *f, "readonly:open", "open failed");
		if (c.failed) return;
		bool writes = r.coin();
		for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(15)); i < n && !c.failed && !dirty; i++) {
			switch (r.below(writes && i + 1 == n ? 5 : 3)) {
			case 0: case 1: {
				std::vector<uint8_t> a(1 + static_cast<size_t>(r.below(r.coin() ? 20 : 5000))), b(a.size());
				size_t x = f->read(a.data(), a.size()), y = m.read(b.data(), b.size());
				trace += fmt(" read(%zu)=%zu", b.size(), x);
				a.resize(x), b.resize(y);
				VH_CHECK(c, a == b, "readonly:data", "%zu bytes read differ from the %zu of the file;%s", x, y, trace.c_str());
				VH_CHECK(c, (x != 0) == f->ok() && (x || f->state() == state_t::eof), "readonly:state", "state is %s;%s", sname(f->state()), trace.c_str());
				break;
			}
			case 2: { auto p = static_cast<sx::foff_t>(r.below(m.d.size() + 5)); f->seek(p); m.seek(p); trace += fmt(" seek(%lld)", (long long)p); break; }
			default: {
				auto v = data_bytes(r, 1 + static_cast<size_t>(r.below(r.coin() ? 20 : 5000)));
				size_t w = f->write(v.data(), v.size());
				trace += fmt(" write(%zu)=%zu", v.size(), w);
				dirty = w > 0;
				told = !f->ok();
				VH_CHECK(c, w == v.size() || !f->ok(), "readonly:write", "short write not reported;%s", trace.c_str());
			}
			}
			VH_CHECK(c, f->tell() == m.pos || dirty, "readonly:tell", "position %llu, want %llu;%s", (unsigned long long)f->tell(), (unsigned long long)m.pos, trace.c_str());
		}
		if (!c.failed && r.coin()) {
			trace += " flush";
			f->flush();
			VH_CHECK(c, f->ok() == !dirty || told, "readonly:flush", "flush gave %s;%s", sname(f->state()), trace.c_str());
		}
		sx::cached_file* p = f.release();
		try { p->~cached_file(); }
		catch (const std::system_error&) { threw = true; }
		::operator delete(static_cast<void*>(p));
	}
	VH_CHECK(c, threw == dirty, "readonly:silent", "%s;%s", dirty ? "data are gone without a report" : "failure reported though nothing was written", trace.c_str());
	VH_CHECK(c, slurp(path) == was, "readonly:changed", "file changed;%s", trace.c_str());
	unlink(path.c_str());
	c.count(dirty ? "written" : "read");
	c.sig(hash_str(trace) ^ was.size());
}
VH_MAIN
