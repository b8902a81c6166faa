// S03: limiter, window, file_window and buffer against models, over streams with short counts and faults.
#include "fstreams.hpp"
using namespace vh;

static size_t rlen(Rng& r, size_t big = 60) { return static_cast<size_t>(r.chance(1, 10) ? 0 : r.coin() ? 1 + r.below(6) : r.below(big + 1)); }
static sx::fsize_t rlimit(Rng& r, size_t n) { return r.chance(1, 6) ? sx::fsize_max : r.chance(1, 6) ? 0 : r.below(n + 20); }
static size_t add_cap(sx::fsize_t a, sx::fsize_t b, size_t cap) { return a >= cap || b >= cap - a ? cap : static_cast<size_t>(a + b); }

static void script(Rng& r, FaultStream& s, size_t n)
{
	s.in = r.bytes(r.size(n));
	if (r.coin()) s.read_rng = r.next() | 1;
	if (r.chance(1, 5)) s.fail_read_at = static_cast<size_t>(r.below(s.in.size() + 1));
	if (r.chance(1, 5)) s.fail_write_at = static_cast<size_t>(r.below(n));
}

VH_GROUP(limiter, 6000, 100000, 2000)
{
	auto& r = c.rng;
	FaultStream s;
	script(r, s, 300);
	auto rl = rlimit(r, 300), wl = rlimit(r, 300);
	sx::limiter f(s, rl, wl);
	s.transient = r.coin();
	std::vector<uint8_t> got, put;
	const size_t fault = s.fail_read_at;
	bool once = false;
	size_t can = std::min(s.in.size(), fault);
	uint64_t sg = hash_bytes(&rl, 8, wl);
	for (unsigned i = 0; i < 30 && !c.failed; i++) {
		size_t n = rlen(r);
		sg = mix(sg ^ n);
		if (r.coin()) {
			std::vector<uint8_t> a(n + 1);
			size_t k = f.read(a.data(), n);
			if (k > n) { c.fail("limiter:read-count", "read(%zu) gave %zu", n, k); return; }
			got.insert(got.end(), a.begin(), a.begin() + k);
			if (k || !n) VH_CHECK(c, f.ok(), "limiter:read-state", "read(%zu) gave %zu and %s", n, k, sname(f.state()));
			else {
				bool limit = got.size() == rl;
				auto want = limit ? state_t::eof : can == fault && !once ? state_t::fail : state_t::eof;
				VH_CHECK(c, f.state() == want, "limiter:read-state", "nothing read at %zu, limit %llu, state %s want %s", got.size(), (unsigned long long)rl, sname(f.state()), sname(want));
				VH_CHECK(c, got.size() == std::min<uint64_t>(can, rl), "limiter:read-early", "end at %zu, limit %llu, %zu there", got.size(), (unsigned long long)rl, can);
				if (s.fail_read_at != fault) { once = true; can = s.in.size(); }
			}
			VH_CHECK(c, got.size() <= rl && s.pos == got.size(), "limiter:read-over", "%zu bytes let through, %zu taken, limit %llu", got.size(), s.pos, (unsigned long long)rl);
			VH_CHECK(c, rl == sx::fsize_max ? f.read_limit == rl : f.read_limit == rl - got.size(), "limiter:read-left", "%llu left to read after %zu of %llu", (unsigned long long)f.read_limit, got.size(), (unsigned long long)rl);
		}
		else {
			auto v = r.bytes(n);
			size_t want = static_cast<size_t>(std::min<uint64_t>({ n, wl - put.size(), s.fail_write_at - std::min(s.fail_write_at, put.size()) }));
			if (wl == sx::fsize_max) want = std::min(n, s.fail_write_at - std::min(s.fail_write_at, put.size()));
			Exact<uint8_t> e(v);
			if (s.fail_write_at != SIZE_MAX && s.transient) c.count("transient");
			size_t k = f.write(e.data(), n);
			VH_CHECK(c, k == want, "limiter:write-count", "write(%zu) gave %zu, want %zu; %zu written, limit %llu, sink fails at %zd", n, k, want, put.size(), (unsigned long long)wl, (ssize_t)s.fail_write_at);
			put.insert(put.end(), v.begin(), v.begin() + std::min(n, k));
			VH_CHECK(c, s.out == put, "limiter:write-data", "sink has %zu bytes, %zu accepted", s.out.size(), put.size());
			if (k == n) VH_CHECK(c, f.ok(), "limiter:write-state", "complete write and %s", sname(f.state()));
			else if (!k) VH_CHECK(c, f.state() == state_t::fail, "limiter:write-state", "nothing written and %s", sname(f.state()));
			VH_CHECK(c, wl == sx::fsize_max ? f.write_limit == wl : f.write_limit == wl - put.size(), "limiter:write-left", "%llu left to write after %zu of %llu", (unsigned long long)f.write_limit, put.size(), (unsigned long long)wl);
		}
	}
	VH_CHECK(c, std::equal(got.begin(), got.end(), s.in.begin()), "limiter:read-data", "data differ");
	c.count("bytes", got.size() + put.size());
	if (!got.empty() || !put.empty()) c.sig(sg);
}

VH_GROUP(window_read, 6000, 100000, 2000)
{
	auto& r = c.rng;
	FaultStream s;
	script(r, s, 300);
	sx::fpos_t off = r.chance(1, 4) ? 0 : r.below(s.in.size() + 10);
	auto lim = rlimit(r, 200);
	sx::window f(s, off, lim);
	size_t can = std::min(s.in.size(), s.fail_read_at);
	size_t from = static_cast<size_t>(std::min<uint64_t>(off, can)), to = std::min(can, add_cap(off, lim, SIZE_MAX));
	if (to < from) to = from;
	std::vector<uint8_t> got;
	uint64_t sg = hash_bytes(&off, 8, lim);
	for (unsigned i = 0; i < 30 && !c.failed; i++) {
		size_t n = rlen(r);
		if (!n && got.empty()) n = 1; // A null read may come across a fault while skipping
		sg = mix(sg ^ n);
		std::vector<uint8_t> a(n + 1);
		size_t k = f.read(a.data(), n);
		if (k > n) { c.fail("window:read-count", "read(%zu) gave %zu", n, k); return; }
		got.insert(got.end(), a.begin(), a.begin() + k);
		if (k || !n) VH_CHECK(c, f.ok(), "window:read-state", "read(%zu) gave %zu and %s", n, k, sname(f.state()));
		else {
			bool exhausted = off <= can && got.size() == lim;
			auto want = exhausted ? state_t::eof : can == s.fail_read_at ? state_t::fail : state_t::eof;
			VH_CHECK(c, f.state() == want, "window:read-state", "nothing read after %zu, window %llu+%llu of %zu, state %s want %s", got.size(), (unsigned long long)off, (unsigned long long)lim, can, sname(f.state()), sname(want));
			VH_CHECK(c, got.size() == to - from, "window:read-early", "end after %zu, window has %zu", got.size(), to - from);
		}
	}
	VH_CHECK(c, got.size() <= to - from && std::equal(got.begin(), got.end(), s.in.begin() + from), "window:read-data", "%zu bytes read are not those of window %llu+%llu", got.size(), (unsigned long long)off, (unsigned long long)lim);
	c.count("bytes", got.size());
	if (!got.empty()) c.sig(sg);
}

VH_GROUP(window_write, 6000, 100000, 2000)
{
	auto& r = c.rng;
	FaultStream s;
	if (r.chance(1, 5)) s.fail_write_at = static_cast<size_t>(r.below(150));
	s.transient = r.coin();
	sx::fpos_t off = r.chance(1, 4) ? 0 : r.below(200);
	auto lim = rlimit(r, 200);
	sx::window f(s, 0, sx::fsize_max, off, lim);
	std::vector<uint8_t> put, want; // accepted; those that belong below
	uint64_t sg = hash_bytes(&off, 8, lim);
	for (unsigned i = 0; i < 30 && !c.failed; i++) {
		size_t n = rlen(r);
		auto v = r.bytes(n);
		sg = mix(sg ^ n);
		// Each byte on its own: before the window dropped, in it passed on, after it dropped.
		std::vector<uint8_t> in;
		size_t dropped = 0;
		for (size_t k = 0; k < n; k++) {
			uint64_t p = put.size() + k;
			if (p < off || (lim != sx::fsize_max && p - off >= lim)) dropped++;
			else in.push_back(v[k]);
		}
		size_t room = s.fail_write_at - std::min(s.fail_write_at, s.out.size());
		size_t pass = std::min(in.size(), room);
		Exact<uint8_t> e(v);
		size_t k = f.write(e.data(), n);
		VH_CHECK(c, k == dropped + pass, "window:write-count", "write(%zu) at %zu gave %zu, want %zu; window %llu+%llu, sink fails at %zd", n, put.size(), k, dropped + pass, (unsigned long long)off, (unsigned long long)lim, (ssize_t)s.fail_write_at);
		want.insert(want.end(), in.begin(), in.begin() + pass);
		VH_CHECK(c, s.out == want, "window:write-data", "sink has %zu bytes, want %zu; window %llu+%llu", s.out.size(), want.size(), (unsigned long long)off, (unsigned long long)lim);
		VH_CHECK(c, f.state() == (pass < in.size() ? state_t::fail : state_t::ok), "window:write-state", "write(%zu) gave %zu and %s", n, k, sname(f.state()));
		if (pass < in.size()) break; // What follows a failure is up to the sink
		put.insert(put.end(), v.begin(), v.end());
	}
	c.count("bytes", put.size());
	if (!want.empty()) c.sig(sg);
}

struct LockFile : public IdealFile
{
	sx::fpos_t lo = 0;
	sx::fsize_t ln = 0;
	unsigned locks = 0, unlocks = 0, closes = 0;
	virtual void close() { closes++; m_state = state_t::ok; }
	virtual void lock(sx::fpos_t o, sx::fsize_t n) { lo = o; ln = n; locks++; m_state = state_t::ok; }
	virtual void unlock(sx::fpos_t o, sx::fsize_t n) { lo = o; ln = n; unlocks++; m_state = state_t::ok; }
};

VH_GROUP(file_window, 5000, 100000, 2000)
{
	auto& r = c.rng;
	LockFile src;
	src.d = data_bytes(r, 1 + r.size(400));
	auto before = src.d;
	if (r.coin()) src.read_rng = 0;
	size_t off = static_cast<size_t>(r.below(src.d.size())), len = static_cast<size_t>(r.below(src.d.size() - off + 1));
	size_t start = static_cast<size_t>(r.below(len + 1));
	src.pos = off + start;
	IdealFile m;
	m.d.assign(src.d.begin() + off, src.d.begin() + off + len);
	m.pos = start;
	sx::file_window f(src, off, len);
	Stepper s{ c, f, m };
	s.tag = "file-window:";
	s.can_truncate = s.can_grow = false;
	s.max_size = std::max<size_t>(len, 8);
	s.trace = fmt("window %zu+%zu of %zu at %zu:", off, len, src.d.size(), start);
	s.compare();
	for (unsigned i = 0, n = 8 + static_cast<unsigned>(r.below(40)); i < n && !c.failed; i++) {
		switch (r.below(10)) {
		case 0: { // write running past the end of the window
			auto v = data_bytes(r, 1 + r.below(30));
			size_t want = m.pos < len ? std::min<size_t>(v.size(), static_cast<size_t>(len - m.pos)) : 0;
			s.note(fmt("write-over(%zu)", v.size()));
			Exact<uint8_t> e(v);
			size_t k = f.write(e.data(), v.size());
			if (k != want) s.bad("write-count", fmt("write(%zu) with %zu left gave %zu", v.size(), want, k));
			m.write(v.data(), want);
			if (!want) s.expect_state(state_t::fail, "write past the end");
			else if (want == v.size()) s.expect_state(state_t::ok, "write");
			s.compare();
			break;
		}
		case 1:
			s.note("truncate");
			f.truncate();
			s.expect_state(state_t::fail, "truncate");
			s.compare();
			break;
		case 2: { // sections locked are sections of the window
			sx::fpos_t o = r.below(len + 10);
			sx::fsize_t n = r.below(len + 10);
			bool un = r.coin();
			s.note(fmt("%slock(%llu,%llu)", un ? "un" : "", (unsigned long long)o, (unsigned long long)n));
			unsigned calls = src.locks + src.unlocks;
			if (un) f.unlock(o, n); else f.lock(o, n);
			if (o < len) {
				s.expect_state(state_t::ok, "lock");
				if (src.locks + src.unlocks != calls + 1 || src.lo != off + o || src.ln != std::min<uint64_t>(n, len - o))
					s.bad("lock", fmt("section %llu+%llu below", (unsigned long long)src.lo, (unsigned long long)src.ln));
			}
			else {
				s.expect_state(state_t::fail, "lock outside");
				if (src.locks + src.unlocks != calls) s.bad("lock", "section outside of the window locked");
			}
			break;
		}
		case 3: { // flushed as far as the file below is
			auto n = src.flushes;
			src.fail_flush_in = r.chance(1, 3) ? 0 : -1;
			bool fails = src.fail_flush_in == 0;
			s.note(fails ? "flush!" : "flush");
			f.flush();
			s.expect_state(fails ? state_t::fail : state_t::ok, "flush");
			if (src.flushes != n + 1) s.bad("flush", "flush not passed on");
			s.compare();
			break;
		}
		case 4: {
			s.note("seek(?)");
			bool threw = false;
			try { f.seek(0, static_cast<sx::seek_t>(9)); }
			catch (const std::invalid_argument&) { threw = true; }
			if (!threw) s.bad("seek-origin", "seek of unknown kind accepted");
			s.compare();
			break;
		}
		case 5: { // the file below does not move
			int64_t target = r.range(0, static_cast<int64_t>(len));
			src.fail_seek_in = 0;
			if (r.coin()) {
				s.note(fmt("skip(%lld)!", (long long)target));
				f.skip(static_cast<sx::fsize_t>(target + 1));
				s.expect_state(state_t::fail, "skip");
				s.compare();
				break;
			}
			s.note(fmt("seek(%lld)!", (long long)target));
			auto p = f.seek(target);
			s.expect_state(state_t::fail, "seek");
			if (p != sx::fpos_max) s.bad("seek-result", fmt("failing seek gave %llu", (unsigned long long)p));
			s.compare();
			break;
		}
		default: s.step();
		}
		if (src.d.size() != before.size() || !std::equal(before.begin(), before.begin() + off, src.d.begin()) || !std::equal(before.begin() + off + len, before.end(), src.d.begin() + off + len))
			s.bad("outside", "bytes outside of the window changed");
		if (!std::equal(m.d.begin(), m.d.end(), src.d.begin() + off)) s.bad("inside", "bytes in the window differ");
	}
	c.count("operations", s.ops);
	f.close();
	VH_CHECK(c, src.closes == 1 && f.ok(), "file-window:close", "closed %u times below, state %s", src.closes, sname(f.state()));
	if (s.ops > 3 && len) c.sig(s.sg);
}

VH_GROUP(buffer_read, 6000, 100000, 2000)
{
	auto& r = c.rng;
	FaultStream s;
	script(r, s, 500);
	s.transient = r.coin();
	size_t can = std::min(s.in.size(), s.fail_read_at), cap = r.one<size_t>({ 0, 1, 2, 3, 7, 16, 33, 64, 200 });
	bool transient = s.transient && s.fail_read_at != SIZE_MAX;
	sx::buffer f(s, cap, static_cast<size_t>(r.below(20)));
	std::vector<uint8_t> got;
	uint64_t sg = cap;
	unsigned ends = 0, fails = 0;
	while (ends < 3 && !c.failed) {
		size_t n = rlen(r, 300);
		sg = mix(sg ^ n);
		uint8_t* p = static_cast<uint8_t*>(malloc(n ? n : 1));
		size_t k = f.read(p, n);
		if (k > n) { c.fail("buffer:read-count", "read(%zu) gave %zu", n, k); return; }
		got.insert(got.end(), p, p + k);
		free(p);
		if (k || !n) { VH_CHECK(c, f.ok(), "buffer:read-state", "read(%zu) gave %zu and %s", n, k, sname(f.state())); }
		else if (f.state() == state_t::fail) {
			fails++;
			VH_CHECK(c, got.size() == can && s.fail_read_at != (transient ? 0 : SIZE_MAX), "buffer:read-fail", "failed after %zu of %zu", got.size(), can);
			if (transient) VH_CHECK(c, fails == 1, "buffer:read-fail", "failed again");
			else ends++;
		}
		else {
			VH_CHECK(c, f.state() == state_t::eof, "buffer:read-state", "nothing read and %s", sname(f.state()));
			VH_CHECK(c, got.size() == s.in.size(), "buffer:read-early", "end after %zu of %zu", got.size(), s.in.size());
			ends++;
		}
		if (fails > 1 && transient) break;
	}
	VH_CHECK(c, got.size() <= s.in.size() && std::equal(got.begin(), got.end(), s.in.begin()), "buffer:read-data", "%zu bytes read differ from the source, capacity %zu", got.size(), cap);
	VH_CHECK(c, c.failed || got.size() == (transient ? s.in.size() : can), "buffer:read-lost", "%zu bytes read of %zu, capacity %zu", got.size(), s.in.size(), cap);
	c.count("bytes", got.size());
	if (got.size() > cap) c.sig(sg);
}

// A buffer closed and then used over what the stream beneath was opened on next.
VH_GROUP(buffer_reopen, 4000, 60000, 1500)
{
	auto& r = c.rng;
	FaultStream s;
	sx::buffer f(s, r.one<size_t>({ 0, 1, 3, 16, 64 }), r.one<size_t>({ 0, 1, 3, 16, 64 }));
	uint64_t sg = 0;
	for (unsigned i = 0, n = 2 + static_cast<unsigned>(r.below(3)); i < n && !c.failed; i++) {
		s.in = r.bytes(r.below(200));
		s.out.clear();
		s.pos = 0;
		s.fail_write_at = SIZE_MAX;
		std::vector<uint8_t> put, got;
		for (unsigned k = 0, ops = static_cast<unsigned>(r.below(8)); k < ops; k++) {
			auto v = r.bytes(r.below(40));
			if (r.coin()) {
				auto m = f.write(v.data(), v.size());
				put.insert(put.end(), v.begin(), v.begin() + m);
			}
			else {
				auto m = f.read(v.data(), v.size());
				got.insert(got.end(), v.begin(), v.begin() + m);
			}
		}
		VH_CHECK(c, got.size() <= s.in.size() && std::equal(got.begin(), got.end(), s.in.begin()), "buffer:reopen-read", "%zu bytes read after %u closings are not the first of %zu in the stream", got.size(), i, s.in.size());
		bool broken = r.chance(1, 4);
		if (broken) s.fail_write_at = s.out.size();
		f.close();
		VH_CHECK(c, s.closes == i + 1, "buffer:reopen-close", "closed %u times, want %u", s.closes, i + 1);
		if (!broken || s.out == put) VH_CHECK(c, f.ok() && s.out == put, "buffer:reopen-write", "%zu bytes below after close, %zu written, state %s", s.out.size(), put.size(), sname(f.state()));
		else { VH_CHECK(c, f.state() == state_t::fail, "buffer:reopen-state", "lost data and %s", sname(f.state())); c.count("lost"); }
		sg = mix(sg ^ (put.size() << 20) ^ got.size());
	}
	c.sig(sg);
}

VH_GROUP(buffer_write, 6000, 100000, 2000)
{
	auto& r = c.rng;
	FaultStream s;
	size_t cap = r.one<size_t>({ 0, 1, 2, 3, 7, 16, 33, 64, 200 });
	std::vector<uint8_t> put;
	uint64_t sg = cap;
	unsigned flushes = 0;
	bool sound = true;
	{
		sx::buffer f(s, static_cast<size_t>(r.below(20)), cap);
		for (unsigned i = 0, ops = 3 + static_cast<unsigned>(r.below(40)); i < ops && !c.failed; i++) {
			// Faults come and go; what was accepted stays in order.
			if (r.chance(1, 8)) s.fail_write_at = r.coin() ? SIZE_MAX : s.out.size() + static_cast<size_t>(r.below(60));
			s.transient = r.coin();
			if (r.chance(1, 8)) {
				f.flush();
				sg = mix(sg + 1);
				if (f.ok()) {
					flushes++;
					VH_CHECK(c, s.out == put, "buffer:flush", "%zu bytes below after flush, %zu accepted", s.out.size(), put.size());
					VH_CHECK(c, s.flushes == flushes, "buffer:flush-forward", "flush not forwarded");
				}
				else {
					sound = false;
					VH_CHECK(c, s.state() == state_t::fail, "buffer:flush-state", "flush failed over a sound sink");
				}
				continue;
			}
			size_t n = rlen(r, 300);
			auto v = r.bytes(n);
			sg = mix(sg ^ n);
			Exact<uint8_t> e(v);
			auto below = s.state();
			unsigned writes = s.writes;
			size_t k = f.write(e.data(), n);
			if (k > n) { c.fail("buffer:write-count", "write(%zu) gave %zu", n, k); return; }
			put.insert(put.end(), v.begin(), v.begin() + k);
			if (k < n || !f.ok()) {
				sound = false;
				VH_CHECK(c, f.state() == state_t::fail, "buffer:write-state", "short write and %s", sname(f.state()));
				VH_CHECK(c, s.writes > writes && s.state() == state_t::fail, "buffer:write-refused", "write(%zu) gave %zu over a sound sink", n, k);
			}
			(void)below;
			VH_CHECK(c, s.out.size() <= put.size() && std::equal(s.out.begin(), s.out.end(), put.begin()), "buffer:write-data", "%zu bytes below are not the first of %zu accepted, capacity %zu", s.out.size(), put.size(), cap);
			VH_CHECK(c, put.size() - std::min(put.size(), s.out.size()) <= cap, "buffer:write-held", "%zu bytes held, capacity %zu", put.size() - s.out.size(), cap);
		}
		if (r.chance(1, 4)) {
			bool may_fail = s.fail_write_at != SIZE_MAX;
			f.close();
			if (f.ok()) VH_CHECK(c, s.closes == 1 && s.at_close == put.size(), "buffer:close", "%zu bytes below when it was closed, %zu accepted", s.at_close, put.size());
			else { VH_CHECK(c, may_fail, "buffer:close-state", "close failed over a sound sink"); put = s.out; }
		}
		s.fail_write_at = SIZE_MAX;
	}
	VH_CHECK(c, s.out == put, "buffer:write-lost", "%zu bytes below after destruction, %zu accepted, capacity %zu%s", s.out.size(), put.size(), cap, sound ? "" : ", after faults");
	c.count("bytes", put.size());
	c.count(sound ? "sound" : "with_faults");
	if (put.size() > cap) c.sig(sg);
}

// Flushing and closing go to the stream below once, behind the data, and what it says is passed on.
struct EndStub : public IdealFile
{
	state_t flush_as = state_t::ok, close_as = state_t::ok;
	unsigned flushes = 0, closes = 0;
	std::string order;
	virtual size_t write(const void* data, size_t length) { if (order.empty() || order.back() != 'w') order += 'w'; return IdealFile::write(data, length); }
	virtual void flush() { flushes++; order += 'f'; m_state = flush_as; }
	virtual void close() { closes++; order += 'c'; m_state = close_as; }
};
VH_GROUP(endings, 2000, 30000, 500)
{
	auto& r = c.rng;
	EndStub a, b;
	struct Plain : sx::converter { Plain(sx::basic& s) : converter(s) {} };
	unsigned kind = static_cast<unsigned>(r.below(8));
	static const char* const names[] = { "converter", "limiter", "window", "buffer", "file_window", "async_writer", "replicator", "cache" };
	a.d.resize(1000);
	std::unique_ptr<sx::basic> w;
	switch (kind) {
	case 0: w = std::make_unique<Plain>(a); break;
	case 1: w = std::make_unique<sx::limiter>(a, r.coin() ? sx::fsize_max : 100, r.coin() ? sx::fsize_max : 1000); break;
	case 2: w = std::make_unique<sx::window>(a, 0, r.coin() ? sx::fsize_max : 1000); break;
	case 3: w = std::make_unique<sx::buffer>(a, static_cast<size_t>(r.below(64)), static_cast<size_t>(r.below(64))); break;
	case 4: w = std::make_unique<sx::file_window>(a, 0, 1000); break;
	case 5: w = std::make_unique<sx::async_writer<32>>(a); break;
	case 6: { auto p = std::make_unique<sx::replicator>(); p->push_back(&a); p->push_back(&b); w = std::move(p); break; }
	default: w = std::make_unique<sx::cache>(a, 1 + static_cast<size_t>(r.below(64)));
	}
	uint64_t sg = kind;
	bool closed = false;
	std::string trace;
	for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(8)); i < n && !closed && !c.failed; i++) {
		auto& low = kind == 6 && r.coin() ? b : a;
		unsigned op = static_cast<unsigned>(r.below(5));
		sg = mix(sg ^ op);
		a.flush_as = a.close_as = b.flush_as = b.close_as = state_t::ok;
		if (op < 3) {
			auto v = r.bytes(1 + r.below(40));
			auto k = w->write(v.data(), v.size());
			trace += fmt(" write(%zu)=%zu", v.size(), k);
			VH_CHECK(c, k == v.size() && w->ok(), "end:write", "%s:%s, state %s", names[kind], trace.c_str(), sname(w->state()));
			continue;
		}
		bool bad = r.coin();
		if (bad) low.flush_as = low.close_as = state_t::fail;
		closed = op == 4;
		unsigned f = a.flushes, k = a.closes;
		trace += closed ? " close" : " flush";
		if (bad) trace += "!";
		if (closed) w->close(); else w->flush();
		VH_CHECK(c, a.flushes - f == (closed ? 0u : 1u) || (kind == 7 && closed), "end:flush-forward", "%s:%s flushed %u times below", names[kind], trace.c_str(), a.flushes - f);
		VH_CHECK(c, a.closes - k == (closed ? 1u : 0u), "end:close-forward", "%s:%s closed %u times below", names[kind], trace.c_str(), a.closes - k);
		VH_CHECK(c, w->state() == (bad ? state_t::fail : state_t::ok), "end:state", "%s:%s left %s, stream below %s", names[kind], trace.c_str(), sname(w->state()), bad ? "failed" : "ok");
		if (!a.order.empty()) VH_CHECK(c, a.order.back() == (closed ? 'c' : 'f'), "end:order", "%s:%s gave %s below", names[kind], trace.c_str(), a.order.c_str());
		if (bad) c.count("failures passed on");
		c.count(closed ? "closings" : "flushes");
		if (bad && kind == 5) break; // The writer takes a failed stream for lost data from then on
	}
	c.count(names[kind]);
	c.sig(sg);
}

VH_MAIN
