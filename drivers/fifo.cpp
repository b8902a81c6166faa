// S04: in-memory FIFO against a deque.
#include "fstreams.hpp"
using namespace vh;

VH_GROUP(history, 30000, 600000, 10000)
{
	auto& r = c.rng;
	sx::fifo f;
	std::deque<uint8_t> m;
	uint8_t next = static_cast<uint8_t>(r.next());
	uint64_t sg = 0, passed = 0;
	std::string trace;
	size_t big = r.one<size_t>({ 3, 20, 300, 5000 });
	auto note = [&](const std::string& s) { trace += " " + s; sg = hash_str(s, sg); if (trace.size() > 1500) trace.erase(0, 500); };
	auto bad = [&](const char* key, const std::string& what) { c.fail(key, "%s; history:%s", what.c_str(), trace.c_str()); };
	for (unsigned i = 0, n = 5 + static_cast<unsigned>(r.below(80)); i < n && !c.failed; i++) {
		size_t len = r.chance(1, 6) ? 0 : 1 + static_cast<size_t>(r.below(big));
		switch (r.below(20)) {
		default: {
			if (m.size() > 20000) break;
			note(fmt("w%zu", len));
			std::vector<uint8_t> v(len);
			for (auto& b : v) m.push_back(b = next++);
			Exact<uint8_t> e(v);
			size_t w = f.write(e.data(), len);
			if (w != len || !f.ok()) bad("write", fmt("write(%zu) returned %zu, state %s", len, w, sname(f.state())));
			break;
		}
		case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: {
			if (r.chance(1, 5)) len = m.size() + static_cast<size_t>(r.range(-1, 1)); // to the end, and around it
			if (len > 100000) len = 0;
			note(fmt("r%zu", len));
			std::vector<uint8_t> v(len);
			Exact<uint8_t> e(v);
			size_t want = std::min(len, m.size()), k = f.read(e.data(), len);
			auto st = f.state();
			if (k != want) { bad("read-count", fmt("read(%zu) with %zu queued returned %zu", len, m.size(), k)); break; }
			for (size_t j = 0; j < k; j++)
				if (e.data()[j] != m[j]) { bad("order", fmt("byte %zu of read(%zu) is %02x, want %02x", j, len, e.data()[j], m[j])); break; }
			m.erase(m.begin(), m.begin() + k);
			passed += k;
			auto want_st = len && !want ? state_t::eof : state_t::ok;
			if (st != want_st) bad("state", fmt("state after read(%zu) giving %zu is %s", len, k, sname(st)));
			break;
		}
		case 9: {
			if (!r.chance(1, 4)) break;
			note("close");
			f.close();
			m.clear();
			if (!f.ok()) bad("state", "state after close");
			break;
		}
		case 10: {
			if (m.size() > 20000) break;
			note("copy in");
			FaultStream s;
			s.in = r.bytes(len);
			s.read_rng = r.next() | 1;
			auto k = f.write_stream(s);
			m.insert(m.end(), s.in.begin(), s.in.end());
			if (k != len || !f.ok()) bad("write_stream", fmt("copied %llu of %zu", (unsigned long long)k, len));
			break;
		}
		case 11: {
			note("rest");
			auto v = f.read_remainder();
			if (v.size() != m.size() || !std::equal(v.begin(), v.end(), m.begin())) bad("remainder", fmt("read_remainder gave %zu of %zu", v.size(), m.size()));
			passed += v.size();
			m.clear();
			break;
		}
		case 12: {
			size_t k = static_cast<size_t>(r.below(40));
			note(fmt("skip%zu", k));
			f.skip(k);
			if ((k > m.size()) == f.ok()) bad("skip", fmt("skip(%zu) with %zu queued: state %s", k, m.size(), sname(f.state())));
			m.erase(m.begin(), m.begin() + std::min(k, m.size()));
			break;
		}
		}
		if (f.size() != m.size()) bad("size", fmt("size() is %zu, written and not read: %zu", f.size(), m.size()));
	}
	c.count("bytes", passed);
	if (passed) c.sig(sg);
	c.sample(trace);
}

VH_MAIN
