// S01: memory file against an ideal byte array, including typed access, copies, moves, fixed buffers and failing allocation.
#include "fstreams.hpp"
using namespace vh;
using sx::memory_file;

static std::vector<uint8_t> content(memory_file& f)
{
	auto p = static_cast<const uint8_t*>(f.data());
	return std::vector<uint8_t>(p, p + static_cast<size_t>(f.size()));
}

template <class T> static void typed(Stepper& s, memory_file& f, IdealFile& m)
{
	auto& r = s.c.rng;
	T v;
	uint64_t raw = r.next();
	memcpy(&v, &raw, sizeof(T));
	if (v != v) v = T(1.5);
	if (r.coin()) {
		s.note(fmt("<<%zu", sizeof(T)));
		if (!f.ok()) {
			// Skipped in a state other than ok.
			f << v;
			return;
		}
		f << v;
		m.write(&v, sizeof(T));
		s.expect_state(state_t::ok, "<<");
	}
	else {
		s.note(fmt(">>%zu", sizeof(T)));
		bool was_ok = f.ok();
		T w = T(7), want = T(0);
		f >> w;
		if (was_ok) {
			if (m.pos + sizeof(T) <= m.d.size()) {
				memcpy(&want, m.d.data() + m.pos, sizeof(T));
				m.pos += sizeof(T);
				s.expect_state(state_t::ok, ">>");
			}
			else {
				s.expect_state(state_t::eof, ">>");
				m.pos = f.tell(); // Where a failed read leaves the position is not documented
				if (m.pos > std::max<uint64_t>(m.d.size(), m.pos)) s.bad("tell", "position after a failed read");
			}
		}
		if (memcmp(&w, &want, sizeof(T))) s.bad("typed", "value read differs from the value stored");
	}
	s.compare();
}

VH_GROUP(history, 4000, 80000, 2000)
{
	auto& r = c.rng;
	IdealFile m;
	std::unique_ptr<memory_file> f;
	bool sized = r.chance(1, 4);
	f = sized ? std::make_unique<memory_file>(static_cast<size_t>(r.below(100))) : std::make_unique<memory_file>();
	if (r.chance(1, 4)) {
		auto v = data_bytes(r, r.size(300));
		void* p = malloc(v.size() ? v.size() : 1);
		memcpy(p, v.data(), v.size());
		f = std::make_unique<memory_file>(p, v.size(), true);
		m.d = v;
	}
	std::unique_ptr<Stepper> s;
	auto restart = [&] {
		auto old = std::move(s);
		s = std::make_unique<Stepper>(Stepper{ c, *f, m });
		s->tag = "memory-file:";
		if (old) { s->trace = old->trace; s->sg = old->sg; s->ops = old->ops; }
	};
	restart();
	for (unsigned i = 0, n = 10 + static_cast<unsigned>(r.below(60)); i < n && !c.failed; i++) {
		switch (r.below(14)) {
		case 0: {
			switch (r.below(8)) {
			case 0: typed<uint8_t>(*s, *f, m); break;
			case 1: typed<uint16_t>(*s, *f, m); break;
			case 2: typed<int32_t>(*s, *f, m); break;
			case 3: typed<uint64_t>(*s, *f, m); break;
			case 4: typed<float>(*s, *f, m); break;
			case 5: typed<double>(*s, *f, m); break;
			case 6: typed<int8_t>(*s, *f, m); break;
			default: typed<int16_t>(*s, *f, m);
			}
			break;
		}
		case 1: {
			// Copies are independent, moves take everything along.
			switch (r.below(6)) {
			case 0: { s->note("copy"); auto g = std::make_unique<memory_file>(*f); f->write_byte(0xee, 3); f = std::move(g); break; }
			case 1: { s->note("copy-assign"); auto g = r.coin() ? std::make_unique<memory_file>() : std::make_unique<memory_file>(static_cast<size_t>(r.below(50))); if (r.coin()) g->write_byte(1, r.below(20)); *g = *f; f = std::move(g); break; }
			case 2: { s->note("move"); auto g = std::make_unique<memory_file>(std::move(*f)); VH_CHECK(c, f->size() == 0 && f->tell() == 0, "memory-file:moved-from", "moved-from file has size %llu", (unsigned long long)f->size()); f->write_byte(2, 5); f = std::move(g); break; }
			case 3: { s->note("move-assign"); auto g = r.coin() ? std::make_unique<memory_file>() : std::make_unique<memory_file>(static_cast<size_t>(r.below(50))); if (r.coin()) g->write_byte(1, r.below(20)); *g = std::move(*f); f = std::move(g); break; }
			case 4: { s->note("self"); memory_file& x = *f; *f = x; break; }
			default: {
				if (!r.chance(1, 4)) break;
				s->note("close");
				f->close();
				m.d.clear();
				m.pos = 0;
			}
			}
			restart();
			s->compare();
			break;
		}
		case 2: { // reserve keeps content; tight shrinking may cut it
			size_t k = r.size(600);
			bool tight = r.coin();
			s->note(fmt("reserve(%zu,%d)", k, tight));
			f->reserve(k, tight);
			if (tight && k < m.d.size()) m.d.resize(static_cast<size_t>(f->size()));
			s->expect_state(state_t::ok, "reserve");
			VH_CHECK(c, f->size() == m.d.size() && f->size() <= std::max<size_t>(m.d.size(), k), "memory-file:reserve", "size %llu after reserve", (unsigned long long)f->size());
			break;
		}
		case 3: { // direct access
			if (m.d.size() < 9) break;
			size_t o = static_cast<size_t>(r.below(m.d.size() - 8));
			uint32_t x = static_cast<uint32_t>(r.next()), y = 0;
			uint64_t z = 0, w;
			s->note(fmt("set(%zu)", o));
			f->set(o, x);
			memcpy(m.d.data() + o, &x, 4);
			f->get(o, y);
			VH_CHECK(c, x == y, "memory-file:get", "get() differs from set()");
			f->get(o, z);
			memcpy(&w, m.d.data() + o, 8);
			VH_CHECK(c, z == w, "memory-file:get", "64-bit get() differs");
			s->compare();
			break;
		}
		case 4: { // strings
			if (!f->ok()) break;
			std::string t;
			for (size_t k = r.below(20); k; k--) t += static_cast<char>(1 + r.below(255));
			auto o = f->tell();
			s->note(fmt("str(%zu)", t.size()));
			if (r.coin()) *f << t; else *f << t.c_str();
			uint32_t n = static_cast<uint32_t>(t.size());
			m.write(&n, 4);
			m.write(t.data(), t.size());
			s->expect_state(state_t::ok, "<< string");
			s->compare();
			f->seekbeg(o);
			std::string u = "old";
			*f >> u;
			VH_CHECK(c, f->ok() && u == t, "memory-file:string", "string does not read back");
			s->compare();
			break;
		}
		case 5: // own write_stream overload, and writing through the base class
			if (m.d.size() < 800 && m.pos <= m.d.size()) {
				FaultStream src;
				src.in = data_bytes(r, r.size(200));
				src.read_rng = r.next() | 1;
				size_t amount = r.coin() ? SIZE_MAX : r.below(250);
				bool failing = r.chance(1, 4);
				if (failing) src.fail_read_at = static_cast<size_t>(r.below(src.in.size() + 1));
				size_t want = std::min(amount, std::min(src.in.size(), src.fail_read_at));
				s->note(fmt("own write_stream(%zu,%zd)", src.in.size(), (ssize_t)amount));
				auto k = f->write_stream(src, amount);
				m.write(src.in.data(), want);
				VH_CHECK(c, k == want, "memory-file:write-stream-count", "copied %zu, want %zu", k, want);
				bool met = failing && want == src.fail_read_at && amount > want;
				VH_CHECK(c, f->state() == (met ? state_t::fail : state_t::ok), "memory-file:write-stream-state", "state %s", sname(f->state()));
				s->compare();
				break;
			}
			[[fallthrough]];
		default:
			s->step();
		}
	}
	s->compare_data(content(*f), m.d, "final content");
	c.count("operations", s->ops);
	if (s->ops > 5) c.sig(s->sg);
}

// A buffer of fixed size that may not be reallocated: writes within it work, beyond it fail and change nothing.
VH_GROUP(fixed, 2000, 30000, 800)
{
	auto& r = c.rng;
	size_t cap = 1 + r.size(64), size = static_cast<size_t>(r.below(cap + 1));
	auto v = data_bytes(r, cap);
	Exact<uint8_t> buf(v);
	uint64_t sg = cap;
	{
		auto owner = std::make_unique<memory_file>(buf.data(), size, cap);
		bool moves = r.chance(1, 3);
		IdealFile m;
		m.d.assign(v.begin(), v.begin() + size);
		for (unsigned i = 0; i < 25; i++) {
			size_t n = static_cast<size_t>(r.below(cap + 4));
			if (moves && r.chance(1, 6)) {
				// The buffer stays the caller's whichever object holds it.
				auto pos = owner->tell();
				std::unique_ptr<memory_file> other;
				unsigned how = static_cast<unsigned>(r.below(3));
				if (how == 0)
					other = std::make_unique<memory_file>(std::move(*owner));
				else {
					other = std::make_unique<memory_file>();
					if (how == 2) { auto d = data_bytes(r, 1 + r.below(40)); other->write(d.data(), d.size()); }
					*other = std::move(*owner);
				}
				VH_CHECK(c, other->data() == buf.data() && other->tell() == pos, "fixed:move", "moving changed the buffer or the position");
				VH_CHECK(c, owner->size() == 0 && owner->tell() == 0, "fixed:move", "moved-from file has %llu bytes", (unsigned long long)owner->size());
				if (r.coin()) { // The moved-from one is an empty file of its own.
					auto d = data_bytes(r, 1 + r.below(40));
					VH_CHECK(c, owner->write(d.data(), d.size()) == d.size() && owner->ok() && owner->data() != buf.data() && !memcmp(owner->data(), d.data(), d.size()), "fixed:move", "moved-from file does not take data");
				}
				owner = std::move(other);
				sg = mix(sg ^ (0x100 + how));
				c.count("moves_of_fixed");
			}
			auto& f = *owner;
			switch (r.below(6)) {
			case 0: case 1: {
				if (m.pos > m.d.size() && !n) n = 1;
				auto d = data_bytes(r, n);
				size_t k = f.write(d.data(), n);
				sg = mix(sg ^ n);
				if (m.pos + n <= cap) {
					m.write(d.data(), n);
					VH_CHECK(c, k == n && f.ok(), "fixed:write", "write of %zu at %llu of %zu gave %zu %s", n, (unsigned long long)m.pos, cap, k, sname(f.state()));
				}
				else {
					VH_CHECK(c, f.state() == state_t::fail && k < n, "fixed:write-beyond", "write beyond the buffer gave %zu, %s", k, sname(f.state()));
					VH_CHECK(c, k == 0, "fixed:write-beyond", "%zu bytes written", k);
				}
				break;
			}
			case 2: f.seekbeg(n); m.pos = n; break;
			case 3: {
				std::vector<uint8_t> a(n), b(n);
				size_t ka = f.read(a.data(), n), kb = m.read(b.data(), n);
				a.resize(ka); b.resize(kb);
				VH_CHECK(c, a == b && f.state() == m.state(), "fixed:read", "read of %zu gave %zu want %zu", n, ka, kb);
				break;
			}
			case 4:
				f.truncate();
				if (m.pos <= cap) { m.truncate(); VH_CHECK(c, f.ok(), "fixed:truncate", "truncate within the buffer failed"); }
				else VH_CHECK(c, !f.ok(), "fixed:truncate", "truncate beyond the buffer did not fail");
				break;
			default: {
				uint32_t x = static_cast<uint32_t>(r.next());
				f.seekbeg(m.pos);
				f << x;
				if (m.pos + 4 <= cap) { m.write(&x, 4); VH_CHECK(c, f.ok(), "fixed:typed", "typed write failed"); }
				else VH_CHECK(c, !f.ok(), "fixed:typed", "typed write beyond the buffer did not fail");
			}
			}
			VH_CHECK(c, f.size() == m.d.size() && f.tell() == m.pos, "fixed:bookkeeping", "size %llu position %llu, want %zu, %llu", (unsigned long long)f.size(), (unsigned long long)f.tell(), m.d.size(), (unsigned long long)m.pos);
			if (c.failed) return;
		}
		auto& f = *owner;
		VH_CHECK(c, f.size() == m.d.size() && !memcmp(buf.data(), m.d.data(), m.d.size()), "fixed:data", "content differs");
		VH_CHECK(c, f.data() == buf.data(), "fixed:data", "buffer replaced");
		switch (r.below(4)) {
		case 0: case 1: { // Leaves the buffer alone and becomes an ordinary empty file.
			bool closed = r.coin();
			if (closed) {
				f.close();
				VH_CHECK(c, f.ok() && !f.size() && !f.tell(), "fixed:close", "closed file has %llu bytes, position %llu", (unsigned long long)f.size(), (unsigned long long)f.tell());
			}
			auto d = data_bytes(r, cap + 1 + r.below(3000));
			if (closed)
				VH_CHECK(c, f.write(d.data(), d.size()) == d.size() && f.ok(), "fixed:close", "cannot be written past the size of the old buffer");
			else {
				memory_file g;
				g.write(d.data(), d.size());
				f = g;
				f.seekend(0);
				VH_CHECK(c, f.write(d.data(), 1) == 1 && f.ok() && f.size() == d.size() + 1, "fixed:assigned", "does not grow after assignment");
				f.seekend(-1);
				f.truncate();
			}
			VH_CHECK(c, f.data() != buf.data() && f.size() == d.size() && !memcmp(f.data(), d.data(), d.size()), "fixed:close", "content differs");
			c.count("let_go_of_fixed");
		}
		}
		owner.reset();
		VH_CHECK(c, !memcmp(buf.data(), m.d.data(), m.d.size()), "fixed:data", "content differs after the file is gone");
	}
	c.sig(sg);
}

// Loading and saving through the file system.
VH_GROUP(load_save, 150, 1500, 60)
{
	auto& r = c.rng;
	auto path = scratch().file("mem.bin");
	unlink(path.c_str());
	auto v = data_bytes(r, r.coin() ? r.size(300) : r.below(200000));
	memory_file f;
	f.write(v.data(), v.size());
	auto before = f.tell();
	f.save(path.c_str(), sx::mode_for_writing | sx::mode_create);
	VH_CHECK(c, f.ok(), "save", "save failed");
	VH_CHECK(c, f.tell() == before && f.size() == v.size(), "save", "save changed the file in memory");
	// Saving a shorter file over a longer one leaves nothing of the longer.
	if (r.coin() && !v.empty()) {
		v.resize(static_cast<size_t>(r.below(v.size())));
		memory_file h;
		h.write(v.data(), v.size());
		h.save(path.c_str(), sx::mode_for_writing | sx::mode_preserve_existing);
	}
	memory_file g;
	g.write_byte(9, r.below(300));
	g.load(path.c_str(), sx::mode_for_reading | sx::mode_open_existing);
	VH_CHECK(c, g.ok() && g.tell() == 0 && content(g) == v, "load", "loaded %llu bytes of %zu, state %s", (unsigned long long)g.size(), v.size(), sname(g.state()));
	memory_file k((path + ".missing").c_str(), sx::mode_for_reading | sx::mode_open_existing);
	VH_CHECK(c, !k.ok(), "load-missing", "loading a missing file succeeded");
	{
		// What cannot be saved or loaded is reported, and the file in memory stays as it was.
		memory_file h;
		h.write(v.data(), v.size());
		auto kept = content(h);
		auto where = h.tell();
		unsigned how = static_cast<unsigned>(r.below(4));
		if (how == 0) h.save((path + ".missing/x").c_str(), sx::mode_for_writing | sx::mode_create);
		else if (how == 1) h.save(path.c_str(), sx::mode_for_writing | sx::mode_preserve_existing);
		else if (how == 2) { if (!v.empty() && !access("/dev/full", W_OK)) h.save("/dev/full", sx::mode_for_writing | sx::mode_open_existing); else how = 1; }
		else h.load((path + ".missing").c_str(), sx::mode_for_reading | sx::mode_open_existing);
		VH_CHECK(c, h.ok() == (how == 1), "save-state", "state %s after saving or loading (%u)", sname(h.state()), how);
		VH_CHECK(c, content(h) == kept && h.tell() == where, "save-state", "the file in memory changed (%u)", how);
	}
	unlink(path.c_str());
	c.sig(hash_bytes(v.data(), v.size()));
}

// Allocation that fails: reported, and the content stays.
VH_GROUP(no_memory, 300, 3000, 100)
{
	auto& r = c.rng;
	memory_file f;
	auto v = data_bytes(r, 1 + r.size(100));
	f.write(v.data(), v.size());
	int64_t huge = (int64_t(1) << (35 + r.below(28))) + static_cast<int64_t>(r.below(1000));
	switch (r.below(4)) {
	case 0: f.reserve(static_cast<size_t>(huge)); VH_CHECK(c, f.state() == state_t::fail, "oom:reserve", "reserve of %lld did not fail", (long long)huge); break;
	case 1: { f.seek(huge); auto k = f.write(v.data(), v.size()); VH_CHECK(c, k == 0 && f.state() == state_t::fail, "oom:write", "write at %lld gave %zu", (long long)huge, k); break; }
	case 2: { f.seek(huge); f << uint32_t(5); VH_CHECK(c, f.state() == state_t::fail, "oom:typed", "typed write at %lld: %s", (long long)huge, sname(f.state())); break; }
	default: { f.seek(huge); f.truncate(); VH_CHECK(c, f.state() == state_t::fail, "oom:truncate", "truncate at %lld: %s", (long long)huge, sname(f.state())); break; }
	}
	VH_CHECK(c, f.size() == v.size(), "oom:size", "size is %llu after a failed allocation, was %zu", (unsigned long long)f.size(), v.size());
	if (c.failed) return;
	f.seek(0);
	std::vector<uint8_t> b(v.size());
	VH_CHECK(c, f.read(b.data(), b.size()) == b.size() && b == v, "oom:data", "content lost after a failed allocation");
	// Position that no file can have: refused
	bool end = r.coin();
	uint64_t at = f.tell();
	try {
		auto p = f.seek(INT64_MAX - static_cast<int64_t>(r.below(v.size())), end ? sx::seek_t::end : sx::seek_t::cur);
		VH_CHECK(c, p == sx::fpos_max && !f.ok(), "seek-overflow", "relative seek gave %llu", (unsigned long long)p);
	}
	catch (const std::invalid_argument&) {}
	VH_CHECK(c, f.tell() == at, "seek-overflow", "position moved to %llu", (unsigned long long)f.tell());
	c.sig(static_cast<uint64_t>(huge));
}
// Allocations fail on demand: the driver is linked with --wrap=malloc,--wrap=realloc.
static thread_local int fail_at = -1; // Number of allocations that succeed before one fails
static thread_local bool failed_alloc = false;
static bool allocation_fails()
{
	if (fail_at < 0) return false;
	if (fail_at--) return false;
	return failed_alloc = true;
}
extern "C" void* __real_malloc(size_t n);
extern "C" void* __real_realloc(void* p, size_t n);
extern "C" void* __wrap_malloc(size_t n) { return allocation_fails() ? nullptr : __real_malloc(n); }
extern "C" void* __wrap_realloc(void* p, size_t n) { return n && allocation_fails() ? nullptr : __real_realloc(p, n); }

// Histories where allocations fail: the call says so, and the file stays as it was.
VH_GROUP(failing, 4000, 60000, 1500)
{
	auto& r = c.rng;
	auto f = std::make_unique<memory_file>();
	IdealFile m;
	{
		auto d = data_bytes(r, r.below(300));
		f->write(d.data(), d.size());
		m.write(d.data(), d.size());
	}
	uint64_t sg = 1;
	std::string trace;
	auto same = [&](const char* what) {
		VH_CHECK(c, f->size() == m.d.size() && f->tell() == m.pos, "failing:bookkeeping", "after%s %s: size %llu position %llu, want %zu, %llu", trace.c_str(), what, (unsigned long long)f->size(), (unsigned long long)f->tell(), m.d.size(), (unsigned long long)m.pos);
		if (c.failed) return;
		auto at = f->tell();
		std::vector<uint8_t> b(m.d.size() + 1);
		f->seekbeg(0);
		size_t n = f->read(b.data(), b.size());
		b.resize(n);
		VH_CHECK(c, b == m.d, "failing:data", "after%s %s: content differs", trace.c_str(), what);
		f->seekbeg(at);
	};
	for (unsigned i = 0; i < 12 && !c.failed; i++) {
		unsigned op = static_cast<unsigned>(r.below(11));
		auto d = data_bytes(r, 1 + r.size(r.coin() ? 200 : 200000));
		IdealFile other;
		memory_file o;
		if (op < 3) {
			o.write(d.data(), d.size());
			other.write(d.data(), d.size());
			auto at = r.below(d.size() + 9);
			o.seekbeg(at);
			other.pos = at;
		}
		bool bad = r.coin(), threw = false, fails = false;
		size_t gave = 0;
		auto where = m.pos, size0 = static_cast<uint64_t>(m.d.size());
		trace += fmt(" %u(%zu%s)", op, d.size(), bad ? "!" : "");
		if (trace.size() > 300) trace.erase(0, trace.size() - 300);
		std::unique_ptr<memory_file> n;
		failed_alloc = false;
		fail_at = bad ? 0 : -1;
		try {
			switch (op) {
			case 0: *f = o; break;
			case 1: n = std::make_unique<memory_file>(o); break;
			case 2: *f = static_cast<const memory_file&>(o); break;
			case 3: n = std::make_unique<memory_file>(d.size()); break;
			case 4: gave = f->write(d.data(), d.size()); break;
			case 5: f->write_byte(d[0], d.size()); break;
			case 6: f->seekbeg(where + d.size()); f->truncate(); break;
			case 7: f->reserve(d.size(), r.coin()); break;
			case 8: f->write_data(d[0] * 0x1010101u); break;
			case 9: f->write_str(std::string(d.size(), 'x')); break;
			default: { fail_at = -1; o.write(d.data(), d.size()); fail_at = bad ? static_cast<int>(r.below(2)) : -1; failed_alloc = false; o.seekbeg(0); gave = f->write_stream(o, r.coin() ? SIZE_MAX : d.size()); }
			}
		}
		catch (const std::bad_alloc&) { threw = true; }
		fail_at = -1;
		fails = failed_alloc;
		sg = mix(sg ^ (op * 2 + fails));
		c.count(fails ? "allocations failed" : "operations");
		if (op < 4) {
			VH_CHECK(c, threw == fails, "failing:throws", "after%s: allocation failed %d, exception %d", trace.c_str(), fails, threw);
			if (c.failed) return;
			if (fails) {
				if (op == 0 || op == 2) {
					VH_CHECK(c, !f->ok(), "failing:state", "after%s: copying failed, and the state is %s", trace.c_str(), sname(f->state()));
					if (!f->size() && m.d.size()) m.d.clear(), m.pos = f->tell(); // Nothing left is no wrong data
				}
			}
			else if (op == 0 || op == 2) m.d = other.d, m.pos = other.pos;
			else if (op == 1) VH_CHECK(c, n->size() == other.d.size() && n->tell() == other.pos && !memcmp(n->data(), d.data(), d.size()), "failing:copy", "after%s: copy differs", trace.c_str());
			same(fails ? "failed copying" : "copying");
			continue;
		}
		VH_CHECK(c, !threw, "failing:throws", "after%s: exception", trace.c_str());
		if (op == 10) {
			VH_CHECK(c, gave <= d.size() && (fails ? !f->ok() || gave == d.size() : gave == d.size()), "failing:transfer", "after%s: %zu of %zu transferred, state %s, allocation failed %d", trace.c_str(), gave, d.size(), sname(f->state()), fails);
			m.write(d.data(), gave);
			same("transfer");
			continue;
		}
		VH_CHECK(c, f->ok() == !fails, "failing:state", "after%s: allocation failed %d, state %s", trace.c_str(), fails, sname(f->state()));
		if (op == 6) m.pos = where + d.size();
		if (!fails) switch (op) {
			case 4: VH_CHECK(c, gave == d.size(), "failing:write", "after%s: wrote %zu", trace.c_str(), gave); m.write(d.data(), d.size()); break;
			case 5: { std::vector<uint8_t> b(d.size(), d[0]); m.write(b.data(), b.size()); break; }
			case 6: m.truncate(); break;
			case 7: if (m.d.size() > f->size()) { VH_CHECK(c, f->size() == d.size(), "failing:reserve", "after%s: size is %llu", trace.c_str(), (unsigned long long)f->size()); m.d.resize(d.size()); } break;
			case 8: { uint32_t x = d[0] * 0x1010101u; m.write(&x, 4); break; }
			case 9: { uint32_t x = static_cast<uint32_t>(d.size()); m.write(&x, 4); std::string t(d.size(), 'x'); m.write(t.data(), t.size()); break; }
		}
		else if (op == 4) VH_CHECK(c, gave == 0, "failing:write", "after%s: wrote %zu without memory", trace.c_str(), gave);
		(void)size0;
		same(fails ? "failed" : "");
	}
	c.sig(sg);
}

// Amounts no memory is large enough for
VH_GROUP(amounts, 400, 4000, 200)
{
	auto& r = c.rng;
	memory_file f;
	auto v = data_bytes(r, 1 + r.size(100));
	f.write(v.data(), v.size());
	size_t at = static_cast<size_t>(r.below(v.size() + 1));
	f.seekbeg(at);
	size_t huge = r.coin() ? SIZE_MAX - static_cast<size_t>(r.below(200)) : static_cast<size_t>(0xccccccccccccccccull) + static_cast<size_t>(r.below(0x20000)) - 0x10000;
	unsigned op = static_cast<unsigned>(r.below(3));
	try {
		switch (op) {
		case 0: f.write_byte(7, huge); break;
		case 1: f.reserve(huge, r.coin()); break;
		default: {
			if (huge == SIZE_MAX) huge--; // All there is
			memory_file o;
			auto d = data_bytes(r, 1 + r.below(100));
			o.write(d.data(), d.size());
			o.seekbeg(0);
			f.write_stream(o, huge);
		}
		}
		VH_CHECK(c, !f.ok(), "amounts", "operation %u of %zu bytes at %zu: state is %s", op, huge, at, sname(f.state()));
	}
	catch (const std::invalid_argument&) {}
	catch (const std::bad_alloc&) {}
	VH_CHECK(c, f.size() == v.size(), "amounts", "size is %llu after operation %u of %zu bytes, was %zu", (unsigned long long)f.size(), op, huge, v.size());
	if (c.failed) return;
	f.seekbeg(0);
	std::vector<uint8_t> b(v.size());
	VH_CHECK(c, f.read(b.data(), b.size()) == b.size() && b == v, "amounts", "content lost after operation %u of %zu bytes", op, huge);
	c.sig(mix(huge ^ op) ^ at);
}
VH_MAIN
