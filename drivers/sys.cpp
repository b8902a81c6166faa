// S09: streams over pipes, sockets and descriptors: delivery, stalls, ends, ownership.
#include "fstreams.hpp"
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <atomic>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
using namespace vh;

static bool tcp_pair(int p[2])
{
	int l = ::socket(AF_INET, SOCK_STREAM, 0);
	if (l < 0) return false;
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t n = sizeof(a);
	bool ok = !::bind(l, reinterpret_cast<sockaddr*>(&a), sizeof(a)) && !::listen(l, 1) && !::getsockname(l, reinterpret_cast<sockaddr*>(&a), &n);
	p[0] = ok ? ::socket(AF_INET, SOCK_STREAM, 0) : -1;
	p[1] = -1;
	if (p[0] >= 0 && !::connect(p[0], reinterpret_cast<sockaddr*>(&a), sizeof(a))) p[1] = ::accept(l, nullptr, nullptr);
	::close(l);
	if (p[1] < 0) { if (p[0] >= 0) ::close(p[0]); return false; }
	int one = 1;
	setsockopt(p[0], IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	setsockopt(p[1], IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	return true;
}

// Pipes and sockets with a peer thread that moves random chunks with delays.
template <class T> static void channel(Case& c, int rd, int wr, bool is_socket)
{
	auto& r = c.rng;
	size_t total = r.chance(1, 5) ? static_cast<size_t>(r.below(400000)) : static_cast<size_t>(r.below(5000));
	auto data = data_bytes(r, total);
	std::vector<uint8_t> got;
	uint64_t seed = r.next();
	bool reading = r.coin();
	if (reading) {
		std::thread peer([&] {
			Rng q(seed);
			for (size_t o = 0; o < total;) {
				size_t n = std::min<size_t>(total - o, 1 + q.below(q.coin() ? 5 : 9000));
				ssize_t k = is_socket ? ::send(wr, data.data() + o, n, 0) : ::write(wr, data.data() + o, n);
				if (k <= 0) break;
				o += k;
				if (q.chance(1, 6)) std::this_thread::yield();
				if (q.chance(1, 40)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(200)));
			}
			::close(wr);
		});
		{
			T s(rd);
			for (;;) {
				size_t n = 1 + static_cast<size_t>(r.below(r.coin() ? 20 : 8000));
				std::vector<uint8_t> v(n);
				Exact<uint8_t> e(v);
				size_t k = s.read(e.data(), n);
				got.insert(got.end(), e.data(), e.data() + std::min(k, n));
				if (k > n) { c.fail("channel-count", "read(%zu) returned %zu", n, k); break; }
				if (k && !s.ok()) c.fail("channel-state", "read gave %zu bytes in state %s", k, sname(s.state()));
				if (!k) { if (s.state() != state_t::eof) c.fail("channel-state", "state at the end is %s", sname(s.state())); break; }
			}
			// The end stays.
			uint8_t b;
			if (s.read(&b, 1) != 0 || s.state() != state_t::eof) c.fail("channel-state", "read behind the end");
			if (s.read(&b, 0) != 0) c.fail("channel-count", "null read");
		}
		peer.join();
	}
	else {
		std::thread peer([&] {
			Rng q(seed);
			for (;;) {
				uint8_t b[9000];
				ssize_t k = ::read(rd, b, 1 + q.below(q.coin() ? 5 : 9000));
				if (k <= 0) break;
				got.insert(got.end(), b, b + k);
				if (q.chance(1, 40)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(200)));
			}
			::close(rd);
		});
		{
			T s(wr);
			for (size_t o = 0; o < total;) {
				size_t n = std::min<size_t>(total - o, 1 + r.below(r.coin() ? 20 : 100000));
				size_t k = s.write(data.data() + o, n);
				if (k != n || !s.ok()) { c.fail("channel-write", "write(%zu) returned %zu, state %s", n, k, sname(s.state())); break; }
				o += n;
			}
			if (r.coin()) s.close(); // or by going away
		}
		peer.join();
	}
	if (got != data) c.fail("channel-data", "%s%s: %zu bytes arrived of %zu, or others", is_socket ? "socket" : "pipe", reading ? " read" : " write", got.size(), total);
	c.count("channel_bytes", total);
	if (total) c.sig(hash_bytes(data.data(), data.size(), reading * 2 + is_socket));
}

VH_GROUP(channels, 400, 6000, 200)
{
	Guard g(c, "channel-hang", 60);
	int p[2];
	switch (c.rng.below(5)) {
	case 0:
		if (pipe(p)) return;
		channel<sx::basic_sys>(c, p[0], p[1], false);
		break;
	case 1:
		if (pipe(p)) return;
		channel<sx::buffered_sys>(c, p[0], p[1], false);
		break;
	case 2:
		if (!tcp_pair(p)) return;
		channel<sx::socket>(c, p[0], p[1], true);
		break;
	case 3: // the ordinary descriptor stream on a socket
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return;
		channel<sx::basic_sys>(c, p[0], p[1], true);
		break;
	default:
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return;
		channel<sx::socket>(c, p[0], p[1], true);
	}
}

// A peer that has gone: writing fails and says how much.
VH_GROUP(broken, 400, 4000, 50)
{
	auto& r = c.rng;
	int p[2];
	bool sock = r.coin();
	if (sock ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : pipe(p)) return;
	::close(p[0]);
	auto v = data_bytes(r, 1 + r.below(5000));
	std::unique_ptr<sx::basic> s;
	if (sock) s.reset(new sx::socket(p[1])); else s.reset(new sx::basic_sys(p[1]));
	size_t n = s->write(v.data(), v.size());
	if (n != 0 || s->state() != state_t::fail) c.fail("broken", "write to a %s without reader returned %zu, state %s", sock ? "socket" : "pipe", n, sname(s->state()));
	FaultStream src;
	src.in = v;
	src.read_rng = r.next() | 1;
	auto k = s->write_stream(src);
	if (k || s->ok()) c.fail("broken", "copy to a %s without reader returned %llu, state %s", sock ? "socket" : "pipe", (unsigned long long)k, sname(s->state()));
	c.sig(fmt("%zu %d", v.size(), sock));
}


// A peer that sends now and then, stalls, and goes; the stream neither waits for ever nor takes a stall for the end.
VH_GROUP(stalls, 3000, 30000, 1000)
{
	auto& r = c.rng;
	Guard g(c, "stall-hang", 60);
	int p[2];
	unsigned kind = static_cast<unsigned>(r.below(4)); // 0 pipe, 1 local socket, 2 TCP, 3 local socket as a descriptor
	if (kind == 0 ? pipe(p) : kind == 2 ? !tcp_pair(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return;
	bool timeout = kind && r.chance(1, 8);
	if (timeout) { timeval tv{ 0, 3000 }; setsockopt(p[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv)); }
	else fcntl(p[0], F_SETFL, O_NONBLOCK);
	std::unique_ptr<sx::basic> s;
	if (kind == 1 || kind == 2) s.reset(new sx::socket(p[0])); else s.reset(new sx::basic_sys(p[0]));
	std::vector<uint8_t> sent;
	size_t pos = 0;
	bool open = true;
	unsigned stalls = 0, ends = 0;
	std::string trace;
	for (unsigned i = 0, n = 4 + static_cast<unsigned>(r.below(20)); i < n && !c.failed; i++) {
		unsigned op = static_cast<unsigned>(r.below(timeout ? 5 : 7));
		if (op < 2 && open) {
			auto v = data_bytes(r, 1 + r.below(r.coin() ? 10 : 3000));
			size_t o = 0;
			while (o < v.size()) { ssize_t k = ::write(p[1], v.data() + o, v.size() - o); if (k <= 0) break; o += k; }
			sent.insert(sent.end(), v.begin(), v.begin() + o);
			trace += fmt(" +%zu", o);
			if (kind == 2) { // on its way: wait for it to arrive
				for (int q = 0, have = 0; q < 20000; q++) {
					if (!ioctl(p[0], FIONREAD, &have) && static_cast<size_t>(have) == sent.size() - pos) break;
					std::this_thread::sleep_for(std::chrono::microseconds(50));
				}
			}
		}
		else if (op == 2 && open && r.chance(1, 4)) {
			::close(p[1]);
			open = false;
			trace += " end";
			if (kind == 2) { pollfd f{ p[0], POLLRDHUP, 0 }; poll(&f, 1, 2000); }
		}
		else {
			size_t avail = sent.size() - pos;
			size_t m = r.chance(1, 4) ? 0 : r.chance(1, 3) ? avail : 1 + static_cast<size_t>(r.below(r.coin() ? 12 : 4000));
			std::vector<uint8_t> v(m);
			Exact<uint8_t> e(v);
			size_t want = std::min(m, avail);
			size_t k = s->read(e.data(), m);
			trace += fmt(" read(%zu)=%zu,%s", m, k, sname(s->state()));
			if (k != want) { c.fail("stall-count", "kind %u: read(%zu) with %zu there gave %zu; history:%s", kind, m, avail, k, trace.c_str()); break; }
			if (memcmp(e.data(), sent.data() + pos, k)) c.fail("stall-data", "kind %u: other bytes; history:%s", kind, trace.c_str());
			pos += k;
			state_t st = !m || k ? state_t::ok : open ? state_t::fail : state_t::eof;
			if (s->state() != st) c.fail("stall-state", "kind %u: state %s, want %s; history:%s", kind, sname(s->state()), sname(st), trace.c_str());
			if (st == state_t::fail) stalls++;
			if (st == state_t::eof) ends++;
		}
	}
	if (open) ::close(p[1]);
	c.count("stalls", stalls);
	c.count("ends", ends);
	c.count("bytes", pos);
	c.sig(hash_str(trace, kind));
	c.sample(trace);
}

// A peer that does not take everything: what was accepted is what is reported, and nothing is sent twice.
VH_GROUP(backlog, 600, 6000, 200)
{
	auto& r = c.rng;
	Guard g(c, "backlog-hang", 60);
	int p[2];
	bool sock = r.coin(), stream = sock && r.coin();
	if (sock ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : pipe(p)) return;
	int rd = p[0], wr = p[1];
	if (sock) { int sz = 4096; setsockopt(wr, SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz)); }
	fcntl(wr, F_SETFL, O_NONBLOCK);
	fcntl(rd, F_SETFL, O_NONBLOCK);
	std::vector<uint8_t> accepted, got;
	std::string trace;
	{
		std::unique_ptr<sx::basic> s;
		if (stream) s.reset(new sx::socket(wr)); else s.reset(new sx::basic_sys(wr));
		unsigned full = 0;
		for (unsigned i = 0, n = 4 + static_cast<unsigned>(r.below(16)); i < n && !c.failed; i++) {
			if (r.chance(3, 5)) {
				auto v = data_bytes(r, r.chance(1, 3) ? 30000 + r.below(200000) : r.below(5000));
				Exact<uint8_t> e(v);
				int before = 0, after = 0;
				ioctl(rd, FIONREAD, &before);
				size_t k = s->write(e.data(), v.size());
				trace += fmt(" write(%zu)=%zu,%s", v.size(), k, sname(s->state()));
				ioctl(rd, FIONREAD, &after);
				if (k > v.size()) { c.fail("backlog-count", "write of %zu gave %zu", v.size(), k); break; }
				if (k != static_cast<size_t>(after - before)) c.fail("backlog-count", "%zu bytes reached the peer; history:%s", static_cast<size_t>(after - before), trace.c_str());
				if ((k < v.size()) != (s->state() == state_t::fail)) c.fail("backlog-state", "state does not tell; history:%s", trace.c_str());
				accepted.insert(accepted.end(), v.begin(), v.begin() + k);
				full += k < v.size();
			}
			else {
				uint8_t b[70000];
				ssize_t k = ::read(rd, b, 1 + r.below(sizeof(b)));
				if (k > 0) got.insert(got.end(), b, b + k);
				trace += fmt(" take %zd", k);
			}
		}
		c.count("full", full);
		if (r.coin()) s->close();
	}
	uint8_t b[70000];
	ssize_t k;
	while ((k = ::read(rd, b, sizeof(b))) > 0) got.insert(got.end(), b, b + k);
	if (k) c.fail("backlog-end", "the peer does not see the end");
	::close(rd);
	if (got != accepted) c.fail("backlog-data", "%zu bytes accepted, %zu arrived, or others; history:%s", accepted.size(), got.size(), trace.c_str());
	c.sig(hash_str(trace, accepted.size()));
}

// A signal that cuts a write short while the peer has yet to take the rest: all of it arrives.
static void ignore_signal(int) {}
VH_GROUP(interrupted, 150, 1500, 60)
{
	auto& r = c.rng;
	Guard g(c, "interrupted-hang", 60);
	struct sigaction sa{};
	sa.sa_handler = ignore_signal; // without SA_RESTART
	sigaction(SIGUSR1, &sa, nullptr);
	int p[2];
	unsigned kind = static_cast<unsigned>(r.below(3)); // pipe, buffered pipe, local socket
	if (kind == 2 ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : pipe(p)) return;
	std::unique_ptr<sx::basic> s;
	if (kind == 0) s.reset(new sx::basic_sys(p[1])); else if (kind == 1) s.reset(new sx::buffered_sys(p[1])); else s.reset(new sx::socket(p[1]));
	size_t total = (kind == 2 ? 2000000 : 80000) + static_cast<size_t>(r.below(200000));
	auto data = data_bytes(r, total);
	std::atomic<bool> done{ false };
	size_t n = 0;
	state_t st = state_t::fail;
	std::thread writer([&] {
		n = s->write(data.data(), data.size());
		st = s->state();
		s.reset();
		done = true;
	});
	// Wait for it to be stuck with a part written.
	int have = 0, last = -1;
	for (int q = 0, same = 0; q < 20000 && same < 10; q++) {
		ioctl(p[0], FIONREAD, &have);
		same = have && have == last ? same + 1 : 0;
		last = have;
		std::this_thread::sleep_for(std::chrono::microseconds(200));
	}
	bool stuck = !done;
	if (stuck) pthread_kill(writer.native_handle(), SIGUSR1);
	if (r.coin()) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
	std::vector<uint8_t> got;
	uint8_t b[70000];
	for (ssize_t k; (k = ::read(p[0], b, sizeof(b))) > 0 || (k < 0 && errno == EINTR);) if (k > 0) got.insert(got.end(), b, b + k);
	writer.join();
	::close(p[0]);
	c.count("cut", stuck);
	if (n != total || st != state_t::ok) c.fail("interrupted-count", "kind %u: write(%zu) interrupted with %d at the peer gave %zu, state %s", kind, total, have, n, sname(st));
	if (got != data) c.fail("interrupted-data", "kind %u: %zu of %zu bytes arrived, or others", kind, got.size(), total);
	c.sig(fmt("%u %zu", kind, total));
}

// Null reads neither wait nor take anything, on messages and on streams.
VH_GROUP(null_reads, 1500, 15000, 100)
{
	auto& r = c.rng;
	Guard g(c, "null-hang", 60);
	int p[2];
	bool dgram = r.coin();
	if (socketpair(AF_UNIX, dgram ? SOCK_DGRAM : SOCK_STREAM, 0, p)) return;
	timeval tv{ 0, 100000 };
	setsockopt(p[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
	sx::socket s(p[0]);
	std::vector<std::vector<uint8_t>> msgs;
	for (size_t n = r.below(4); n; n--) {
		msgs.push_back(data_bytes(r, 1 + r.below(100)));
		if (r.coin()) { if (s.read(nullptr, 0) || !s.ok()) c.fail("null-read", "state %s after a null read", sname(s.state())); }
		if (::send(p[1], msgs.back().data(), msgs.back().size(), 0) < 0) return;
	}
	uint64_t sg = dgram;
	for (auto& m : msgs) {
		for (size_t q = r.below(3); q; q--) if (s.read(nullptr, 0) || !s.ok()) c.fail("null-read", "state %s after a null read", sname(s.state()));
		std::vector<uint8_t> v(m.size());
		Exact<uint8_t> e(v);
		size_t k = s.read(e.data(), m.size());
		if (k != m.size() || memcmp(e.data(), m.data(), k) || !s.ok()) c.fail("null-data", "%zu bytes of %zu after null reads, or others (%s)", k, m.size(), dgram ? "messages" : "stream");
		sg = hash_bytes(m.data(), m.size(), sg);
	}
	if (s.read(nullptr, 0) || !s.ok()) c.fail("null-read", "state %s after a null read with nothing there", sname(s.state()));
	::close(p[1]);
	if (s.read(nullptr, 0) || !s.ok()) c.fail("null-read", "state %s after a null read at the end", sname(s.state()));
	c.sig(sg);
}

// Ownership: who holds which end, as seen by the peers.
struct Slot { std::unique_ptr<sx::socket> s; int peer = -1; }; // peer of the socket held, -1: none held
VH_GROUP(owners, 4000, 40000, 1000)
{
	auto& r = c.rng;
	std::vector<Slot> v(4);
	for (auto& x : v) x.s.reset(new sx::socket);
	std::vector<int> peers; // every peer made
	std::set<int> live;     // peers whose other end must be open
	std::string trace;
	auto make = [&](int& own, int& peer) {
		int p[2];
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return false;
		own = p[0]; peer = p[1];
		fcntl(peer, F_SETFL, O_NONBLOCK);
		peers.push_back(peer);
		return true;
	};
	for (unsigned i = 0, n = 3 + static_cast<unsigned>(r.below(20)); i < n && !c.failed; i++) {
		size_t a = static_cast<size_t>(r.below(v.size())), b = static_cast<size_t>(r.below(v.size()));
		unsigned op = static_cast<unsigned>(r.below(6));
		trace += fmt(" %u:%zu,%zu", op, a, b);
		int own, peer;
		switch (op) {
		case 0: case 1:
			if (!make(own, peer)) return;
			if (v[a].peer >= 0) live.erase(v[a].peer);
			if (op) v[a].s.reset(new sx::socket(own)); else *v[a].s = sx::socket(own);
			v[a].peer = peer;
			live.insert(peer);
			break;
		case 2:
			if (a == b) { auto& self = *v[b].s; *v[a].s = std::move(self); break; }
			if (v[a].peer >= 0) live.erase(v[a].peer);
			*v[a].s = std::move(*v[b].s);
			v[a].peer = v[b].peer;
			v[b].peer = -1;
			break;
		case 3:
			if (v[a].peer >= 0) live.erase(v[a].peer);
			v[a].s->close();
			if (!v[a].s->ok()) c.fail("owner-state", "state %s after close()", sname(v[a].s->state()));
			v[a].peer = -1;
			break;
		case 4: {
			std::unique_ptr<sx::socket> t(new sx::socket(std::move(*v[a].s)));
			if (*v[a].s) c.fail("owner-moved", "a moved-from socket still has a handle");
			v[a].s = std::move(t);
			break;
		}
		default:
			if (v[a].peer >= 0) live.erase(v[a].peer);
			v[a].s.reset(new sx::socket);
			v[a].peer = -1;
		}
		for (auto& x : v) {
			if (static_cast<bool>(*x.s) != (x.peer >= 0) || (x.peer >= 0) != (x.s->get() != stdex::invalid_socket)) c.fail("owner-valid", "validity differs; history:%s", trace.c_str());
			if (x.peer >= 0 && r.chance(1, 3)) { // and it is the right one
				uint8_t q = static_cast<uint8_t>(r.next()), z = 0;
				if (x.s->write(&q, 1) != 1 || ::read(x.peer, &z, 1) != 1 || z != q) c.fail("owner-other", "data does not reach the peer; history:%s", trace.c_str());
			}
		}
		for (auto q : peers) {
			pollfd f{ q, POLLIN, 0 };
			poll(&f, 1, 0);
			bool gone = f.revents & POLLHUP;
			if (gone == (live.count(q) != 0)) { c.fail(gone ? "owner-early" : "owner-leak", "a peer %s its end closed; history:%s", gone ? "sees" : "does not see", trace.c_str()); break; }
		}
	}
	v.clear();
	for (auto q : peers) {
		pollfd f{ q, POLLIN, 0 };
		poll(&f, 1, 0);
		if (!(f.revents & POLLHUP) && !c.failed) c.fail("owner-leak", "a peer does not see its end closed after all streams are gone; history:%s", trace.c_str());
		::close(q);
	}
	c.sig(hash_str(trace));
}

// Sockets the stream makes itself, and streams over nothing.
VH_GROUP(made, 500, 3000, 20)
{
	auto& r = c.rng;
	uint8_t b = 0;
	switch (r.below(4)) {
	case 0: {
		int fd;
		{
			sx::socket s(AF_INET, SOCK_STREAM, 0);
			if (!s || !s.ok()) c.fail("made", "no socket made");
			fd = s.get();
			int type = 0; socklen_t n = sizeof(type);
			if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &n) || type != SOCK_STREAM) c.fail("made", "not the socket asked for");
		}
		struct stat st;
		if (!fstat(fd, &st)) c.fail("made-leak", "socket left open");
		break;
	}
	case 1: {
		sx::socket s(AF_INET, SOCK_STREAM, 9999);
		if (s || s.ok()) c.fail("made", "an impossible socket is reported as made");
		break;
	}
	case 2: {
		sx::socket s;
		if (s.read(&b, 1) || s.state() != state_t::fail) c.fail("nothing", "reading nothing: state %s", sname(s.state()));
		if (s.write(&b, 1) || s.state() != state_t::fail) c.fail("nothing", "writing to nothing: state %s", sname(s.state()));
		break;
	}
	default: {
		sx::basic_sys s;
		if (s.read(&b, 1) || s.state() != state_t::fail) c.fail("nothing", "reading nothing: state %s", sname(s.state()));
		if (s.write(&b, 1) || s.state() != state_t::fail) c.fail("nothing", "writing to nothing: state %s", sname(s.state()));
		s.flush();
		if (s.ok()) c.fail("nothing", "flushing nothing succeeded");
	}
	}
	c.sig(r.next() % 64);
}

VH_MAIN
