// S08: bulk transfers over streams with short counts and faults, and over pipes and sockets.
#include "fstreams.hpp"
#include <sys/socket.h>
using namespace vh;

// A FaultStream without own skip() etc.: everything goes through the base class.
static FaultStream* source(Rng& r, size_t max)
{
	auto s = new FaultStream;
	s->in = data_bytes(r, r.chance(1, 12) ? static_cast<size_t>(r.range(0x10000 - 3, 0x10000 * 2 + 3)) : r.size(max));
	if (r.coin()) s->read_rng = r.next() | 1;
	else if (r.coin()) s->read_cap = 1 + static_cast<size_t>(r.below(50));
	if (r.chance(1, 3)) s->fail_read_at = static_cast<size_t>(r.below(s->in.size() + 1));
	s->transient = r.chance(1, 3);
	s->end_with_data = r.chance(1, 4);
	return s;
}

VH_GROUP(copy, 30000, 400000, 10000)
{
	auto& r = c.rng;
	std::unique_ptr<FaultStream> a(source(r, 2000));
	FaultStream b;
	b.out = data_bytes(r, r.below(4));
	auto pre = b.out;
	if (r.chance(1, 3)) b.fail_write_at = pre.size() + static_cast<size_t>(r.below(a->in.size() + 1));
	a->pos = r.chance(1, 4) ? static_cast<size_t>(r.below(std::min(a->in.size(), a->fail_read_at) + 1)) : 0;
	size_t start = a->pos;
	size_t amount = r.coin() ? SIZE_MAX : r.chance(1, 3) ? a->in.size() - start : static_cast<size_t>(r.below(a->in.size() + 20));
	if (r.chance(1, 10)) b.set_state(state_t::fail); // state of an earlier operation
	if (r.chance(1, 10)) a->set_state(r.one({ state_t::fail, state_t::eof }));
	b.transient = r.chance(1, 3);
	const size_t fault = a->fail_read_at, brk = b.fail_write_at;
	size_t avail = std::min(a->in.size(), a->fail_read_at) - start;
	size_t room = b.fail_write_at == SIZE_MAX ? SIZE_MAX : b.fail_write_at - pre.size();
	auto n = b.write_stream(*a, amount == SIZE_MAX ? sx::fsize_max : amount);
	size_t want = std::min(std::min(amount, avail), room);
	auto what = fmt("copy of %zd from %zu bytes%s to sink with room for %zd", (ssize_t)amount, avail, fault <= a->in.size() ? " then failure" : "", (ssize_t)room);
	if (n != want) c.fail("copy-count", "%s returned %llu, want %zu", what.c_str(), (unsigned long long)n, want);
	std::vector<uint8_t> all(pre);
	all.insert(all.end(), a->in.begin() + start, a->in.begin() + start + want);
	if (b.out != all) c.fail("copy-data", "%s: sink holds %zu bytes, want %zu, or other bytes", what.c_str(), b.out.size(), all.size());
	bool sink_failed = room < std::min(amount, avail);
	bool source_failed = !sink_failed && fault <= a->in.size() && amount > avail;
	if (sink_failed || source_failed) {
		if (b.ok()) c.fail("copy-state", "%s: failure not reported", what.c_str());
	}
	else if (!b.ok()) c.fail("copy-state", "%s: state %s", what.c_str(), sname(b.state()));
	c.count("bytes", want);
	if (want) c.sig(hash_bytes(all.data(), all.size(), amount ^ fault ^ room ^ brk));
	c.sample(what);
}

// Everything that reads through the base class, in sequence.
VH_GROUP(reads, 30000, 400000, 10000)
{
	auto& r = c.rng;
	std::unique_ptr<FaultStream> a(source(r, 1500));
	std::string trace;
	const size_t fault = a->fail_read_at;
	size_t pos = 0, end = std::min(a->in.size(), fault);
	auto bad_end = fault <= a->in.size() ? state_t::fail : state_t::eof;
	uint64_t sg = 0;
	for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(12)); i < n && !c.failed; i++) {
		if (a->fail_read_at != fault) { // It failed once, and goes on from there.
			end = a->in.size();
			bad_end = state_t::eof;
		}
		size_t k = r.chance(1, 8) ? static_cast<size_t>(r.below(70000)) : static_cast<size_t>(r.below(60));
		auto expect = [&](size_t got, const char* op, bool complete) {
			if (a->pos != pos) c.fail("position", "%s: stream at %zu, want %zu; history:%s", op, a->pos, pos, trace.c_str());
			if (complete ? !a->ok() : a->state() != bad_end) c.fail("read-state", "%s got %zu: state %s, want %s; history:%s", op, got, sname(a->state()), complete ? "ok" : sname(bad_end), trace.c_str());
		};
		switch (r.below(5)) {
		case 0: case 1: {
			size_t size = 1 + static_cast<size_t>(r.below(9)), count = k / size;
			trace += fmt(" read_array(%zu,%zu)", size, count);
			std::vector<uint8_t> v(size * count);
			Exact<uint8_t> e(v);
			size_t got = a->read_array(e.data(), size, count), want = std::min(size * count, end - pos);
			if (got != want / size) c.fail("array-count", "read_array(%zu,%zu) with %zu left returned %zu", size, count, end - pos, got);
			if (memcmp(e.data(), a->in.data() + pos, want)) c.fail("array-data", "read_array data differs");
			pos += want;
			expect(got, "read_array", want == size * count);
			break;
		}
		case 2: {
			if (r.chance(1, 15)) k = r.one({ SIZE_MAX, SIZE_MAX / 2, size_t(1) << 32, size_t(1) << 40 });
			trace += fmt(" skip(%zu)", k);
			a->skip(k);
			size_t want = std::min(k, end - pos);
			pos += want;
			expect(want, "skip", want == k);
			break;
		}
		case 3: {
			size_t m = r.coin() ? k : SIZE_MAX;
			trace += fmt(" remainder(%zd)", (ssize_t)m);
			auto v = a->read_remainder(m);
			size_t want = std::min(m, end - pos);
			if (v.size() != want || (want && memcmp(v.data(), a->in.data() + pos, want))) c.fail("remainder", "read_remainder(%zd) with %zu left gave %zu", (ssize_t)m, end - pos, v.size());
			pos += want;
			if (m) expect(v.size(), "read_remainder", want == m);
			break;
		}
		default: {
			trace += " byte";
			bool threw = false;
			uint8_t b = 0;
			try { b = a->read_byte(); }
			catch (const std::system_error&) { threw = true; }
			if (threw != (pos >= end)) c.fail("read-byte", "read_byte at %zu of %zu %s", pos, end, threw ? "threw" : "did not throw");
			else if (!threw && b != a->in[pos]) c.fail("read-byte", "read_byte gave %02x, want %02x", b, a->in[pos]);
			if (pos < end) pos++;
		}
		}
	}
	sg = hash_str(trace, a->in.size() * 31 + fault);
	c.count("bytes", pos);
	if (pos) c.sig(sg);
	c.sample(trace);
}

VH_GROUP(writes, 20000, 200000, 5000)
{
	auto& r = c.rng;
	FaultStream b;
	if (r.coin()) b.fail_write_at = static_cast<size_t>(r.below(400));
	b.transient = r.coin();
	std::vector<uint8_t> want;
	std::string trace;
	for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(12)); i < n && !c.failed; i++) {
		size_t k = r.chance(1, 30) ? static_cast<size_t>(r.range(0x10000 - 2, 0x20000 + 2)) : r.chance(1, 4) ? static_cast<size_t>(r.range(14, 18)) : static_cast<size_t>(r.below(60));
		bool failed = false;
		if (r.coin()) {
			uint8_t v = static_cast<uint8_t>(r.next());
			if (b.fail_write_at != SIZE_MAX && r.chance(1, 15)) k = r.one({ SIZE_MAX, SIZE_MAX / 2, size_t(1) << 32, size_t(1) << 40 });
			trace += fmt(" byte*%zu", k);
			size_t room = b.fail_write_at - std::min(b.fail_write_at, want.size());
			b.write_byte(v, k);
			failed = k > room;
			want.insert(want.end(), std::min(k, room), v);
			if (!k) continue;
		}
		else {
			size_t size = 1 + static_cast<size_t>(r.below(9)), count = k / size;
			trace += fmt(" array(%zu,%zu)", size, count);
			auto v = data_bytes(r, size * count);
			Exact<uint8_t> e(v);
			size_t room = b.fail_write_at - std::min(b.fail_write_at, want.size());
			size_t got = b.write_array(e.data(), size, count);
			size_t m = std::min(room, v.size());
			failed = m < v.size();
			want.insert(want.end(), v.begin(), v.begin() + m);
			if (got != m / size) c.fail("write-array-count", "write_array(%zu,%zu) with room for %zu returned %zu", size, count, room, got);
		}
		if (b.ok() == failed) c.fail("write-state", "state %s after a write that %s; history:%s", sname(b.state()), failed ? "failed" : "succeeded", trace.c_str());
		if (b.out != want) c.fail("write-data", "sink holds %zu bytes, want %zu, or other bytes; history:%s", b.out.size(), want.size(), trace.c_str());
	}
	c.count("bytes", want.size());
	if (!want.empty()) c.sig(hash_bytes(want.data(), want.size(), hash_str(trace)));
}

// One-way streams: the direction that is not there fails and moves nothing, whichever way it is asked for.
struct WriteOnly : sx::basic
{
	std::vector<uint8_t> out;
	WriteOnly(state_t s = state_t::ok) : sx::basic(s) {}
	virtual size_t write(const void* data, size_t length) { out.insert(out.end(), static_cast<const uint8_t*>(data), static_cast<const uint8_t*>(data) + length); m_state = state_t::ok; return length; }
};
struct ReadOnly : sx::basic
{
	std::vector<uint8_t> in;
	size_t pos = 0;
	virtual size_t read(void* data, size_t length)
	{
		size_t n = std::min(length, in.size() - pos);
		if (n) memcpy(data, in.data() + pos, n);
		pos += n;
		m_state = n || !length ? state_t::ok : state_t::eof;
		return n;
	}
};

VH_GROUP(oneway, 6000, 60000, 500)
{
	auto& r = c.rng;
	WriteOnly w(r.one({ state_t::ok, state_t::eof, state_t::fail }));
	ReadOnly s;
	s.in = data_bytes(r, 1 + r.below(100));
	auto all = s.in;
	std::string trace;
	size_t moved = 0;
	for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(8)); i < n && !c.failed; i++) {
		uint8_t b[64];
		memset(b, 0x33, sizeof(b));
		size_t k = 1 + static_cast<size_t>(r.below(8)), sz = 1 + static_cast<size_t>(r.below(8));
		bool fails = true;
		sx::basic* on = &w;
		unsigned op = static_cast<unsigned>(r.below(12));
		trace += fmt(" %u", op);
		auto none = [&](unsigned long long got) { if (got) c.fail("oneway-count", "operation %u moved %llu where nothing can be moved", op, got); };
		switch (op) {
		case 0: none(w.read(b, k)); break;
		case 1: none(w.read_array(b, sz, k)); break;
		case 2: none(w.read_remainder(r.coin() ? k : SIZE_MAX).size()); break;
		case 3: w.skip(r.coin() ? k : 100000 + k); break;
		case 4: { bool threw = false; try { w.read_byte(); } catch (const std::system_error&) { threw = true; } if (!threw) c.fail("oneway-byte", "read_byte did not throw"); break; }
		case 5: { uint32_t v = 7; w >> v; if (v) c.fail("oneway-value", "value %u out of nothing", v); break; }
		case 6: { std::string v("x"); w >> v; if (!v.empty()) c.fail("oneway-value", "string out of nothing"); break; }
		case 7: on = &s; none(s.write(b, k)); break;
		case 8: on = &s; none(s.write_array(b, sz, k)); break;
		case 9: on = &s; s.write_byte(0x44, k); break;
		case 10: on = &s; { FaultStream a; a.in = data_bytes(r, 10); none(s.write_stream(a, r.coin() ? k : sx::fsize_max)); } break;
		default: {
			// Flushing and closing is always possible, and the other direction goes on as before.
			fails = false;
			bool close = r.coin();
			if (r.coin()) on = &s;
			if (close) on->close(); else on->flush();
			if (!on->ok()) c.fail("oneway-state", "state %s after %s()", sname(on->state()), close ? "close" : "flush");
			size_t m = std::min<size_t>(k, all.size() - moved);
			if (m) { none(w.write_stream(s, m) - m); moved += m; if (!w.ok()) c.fail("oneway-state", "state %s after a copy", sname(w.state())); }
		}
		}
		if (fails && (op == 5 || op == 6 ? on->ok() : on->state() != state_t::fail)) // operators keep an earlier state
			 c.fail("oneway-state", "state %s after operation %u that cannot be done; history:%s", sname(on->state()), op, trace.c_str());
		for (auto x : b) if (x != 0x33) { c.fail("oneway-data", "operation %u changed the buffer", op); break; }
	}
	if (w.out != std::vector<uint8_t>(all.begin(), all.begin() + moved)) c.fail("oneway-data", "sink holds %zu bytes, want %zu, or others", w.out.size(), moved);
	c.sig(hash_str(trace, moved));
}

VH_MAIN
