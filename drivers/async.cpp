// C04: asynchronous reader/writer and replicator over streams with short counts and faults.
#include "fstreams.hpp"
using namespace vh;

template <class F>
static void with_cap(Rng& r, F f)
{
	switch (r.below(8)) {
	case 0: f(std::integral_constant<size_t, 1>()); break;
	case 1: f(std::integral_constant<size_t, 2>()); break;
	case 2: f(std::integral_constant<size_t, 3>()); break;
	case 3: f(std::integral_constant<size_t, 7>()); break;
	case 4: f(std::integral_constant<size_t, 16>()); break;
	case 5: f(std::integral_constant<size_t, 61>()); break;
	case 6: f(std::integral_constant<size_t, 256>()); break;
	default: f(std::integral_constant<size_t, 4096>()); break;
	}
}

VH_GROUP(async_read, 500, 8000, 200)
{
	Guard g(c, "async-read-hang");
	auto& r = c.rng;
	with_cap(r, [&](auto cap) {
		constexpr size_t N = decltype(cap)::value;
		FaultStream src;
		src.in = r.bytes(r.size(N < 16 ? 300 : 3000));
		src.threaded = true;
		src.jit = Rng(r.next());
		if (r.coin()) src.read_rng = r.next() | 1;
		if (r.chance(1, 4)) src.fail_read_at = static_cast<size_t>(r.below(src.in.size() + 1));
		src.end_with_data = r.chance(1, 3);
		size_t want = std::min(src.in.size(), src.fail_read_at);
		auto end = want == src.fail_read_at ? state_t::fail : state_t::eof;
		bool early = r.chance(1, 4);
		size_t stop = early ? static_cast<size_t>(r.below(want + 1)) : SIZE_MAX;
		std::vector<uint8_t> got;
		uint64_t sg = N;
		{
			sx::async_reader<N> a(src);
			bool ended = false;
			for (unsigned extra = 0; got.size() < stop && extra < 3;) {
				size_t n = static_cast<size_t>(r.chance(1, 12) ? 0 : 1 + r.below(r.coin() ? 5 : N * 2 + 20));
				uint8_t* p = static_cast<uint8_t*>(malloc(n ? n : 1));
				size_t k = a.read(p, n);
				if (k > n) { c.fail("async-read-count", "read(%zu) returned %zu", n, k); _exit(98); }
				got.insert(got.end(), p, p + k);
				free(p);
				sg = mix(sg ^ (n << 16) ^ k);
				if (!n) VH_CHECK(c, k == 0 && a.ok(), "async-read-null", "null read gave %zu, %s", k, sname(a.state()));
				else if (k) {
					VH_CHECK(c, a.ok(), "async-read-state", "read(%zu) gave %zu and %s", n, k, sname(a.state()));
					VH_CHECK(c, !ended, "async-read-after-end", "data after the end");
				}
				else {
					VH_CHECK(c, a.state() == end, "async-read-end", "no data at %zu of %zu and state %s, want %s", got.size(), want, sname(a.state()), sname(end));
					VH_CHECK(c, got.size() == want, "async-read-lost", "end after %zu of %zu bytes", got.size(), want);
					ended = true;
					extra++;
				}
				jitter(r);
			}
		}
		VH_CHECK(c, got.size() <= want && std::equal(got.begin(), got.end(), src.in.begin()), "async-read-data", "%zu bytes read are not the first of the source (%zu)", got.size(), want);
		VH_CHECK(c, src.pos <= got.size() + N, "async-read-ahead", "%zu bytes taken from the source, %zu read, capacity %zu", src.pos, got.size(), N);
		c.count("bytes", got.size());
		c.count(early ? "early_destruction" : end == state_t::fail ? "failing_source" : "to_the_end");
		if (got.size() > N) c.sig(sg);
	});
}

VH_GROUP(async_write, 500, 8000, 200)
{
	Guard g(c, "async-write-hang");
	auto& r = c.rng;
	with_cap(r, [&](auto cap) {
		constexpr size_t N = decltype(cap)::value;
		FaultStream sink;
		sink.threaded = true;
		sink.jit = Rng(r.next());
		auto all = r.bytes(r.size(N < 16 ? 300 : 3000));
		bool failing = r.chance(1, 3);
		if (failing) {
			sink.fail_write_at = static_cast<size_t>(r.below(all.size() + 1));
			sink.transient = r.coin();
		}
		size_t fault = sink.fail_write_at;
		size_t done = 0;
		bool reported = false;
		unsigned flushes = 0, closes = 0;
		uint64_t sg = N;
		{
			sx::async_writer<N> a(sink);
			while (done < all.size() && !reported) {
				size_t n = static_cast<size_t>(std::min<uint64_t>(all.size() - done, r.chance(1, 12) ? 0 : 1 + r.below(r.coin() ? 5 : N * 2 + 20)));
				Exact<uint8_t> e(all.data() + done, n);
				size_t k = a.write(e.data(), n);
				if (k > n) { c.fail("async-write-count", "write(%zu) returned %zu", n, k); _exit(98); }
				sg = mix(sg ^ (n << 16) ^ k);
				done += k;
				if (k < n) {
					VH_CHECK(c, a.state() == state_t::fail, "async-write-state", "short write and state %s", sname(a.state()));
					VH_CHECK(c, failing, "async-write-refused", "write(%zu) gave %zu over a sound sink", n, k);
					reported = true;
				}
				else
					reported = !a.ok();
				jitter(r);
				if (r.chance(1, 6)) {
					a.flush();
					if (a.ok()) {
						flushes++;
						VH_CHECK(c, sink.out.size() == done, "async-flush", "%zu bytes at the sink after flush, %zu written, capacity %zu", sink.out.size(), done, N);
						VH_CHECK(c, sink.flushes == flushes, "async-flush-forward", "sink flushed %u times, want %u", sink.flushes, flushes);
					}
					else {
						VH_CHECK(c, failing, "async-flush-state", "flush failed over a sound sink");
						reported = true;
					}
				}
			}
			if (r.coin()) {
				if (!failing && r.chance(1, 4)) {
					sink.fail_flush = true;
					a.flush();
					VH_CHECK(c, a.state() == state_t::fail, "async-flush-state", "failure to flush the sink not reported");
				}
				else {
					a.flush();
					if (a.ok()) VH_CHECK(c, sink.out.size() == done, "async-flush", "%zu bytes at the sink after flush, %zu written", sink.out.size(), done);
					if (failing && done > fault)
						VH_CHECK(c, reported || !a.ok(), "async-write-unreported", "sink failed at %zu of %zu bytes and neither write nor flush reported it", fault, done);
					if (a.ok() && r.coin()) { a.close(); VH_CHECK(c, sink.closes == 1, "async-close", "close not forwarded"); }
				}
			}
			else if (r.coin()) {
				a.close();
				if (a.ok()) VH_CHECK(c, sink.closes == 1 && sink.at_close == done && (!failing || done <= fault), "async-close", "%zu bytes at the sink when it was closed, %zu written", sink.at_close, done);
				else VH_CHECK(c, failing, "async-close", "close failed over a sound sink");
			}
		}
		VH_CHECK(c, sink.out.size() <= all.size() && std::equal(sink.out.begin(), sink.out.end(), all.begin()), "async-write-data", "%zu bytes at the sink are not the first of those written (%zu)", sink.out.size(), done);
		if (!failing || done <= fault) VH_CHECK(c, sink.out.size() == done, "async-write-lost", "%zu bytes at the sink after destruction, %zu written, capacity %zu", sink.out.size(), done, N);
		else VH_CHECK(c, sink.out.size() == fault, "async-write-lost", "%zu bytes at the sink that failed at %zu", sink.out.size(), fault);
		c.count("bytes", done);
		c.count(failing ? "failing_sink" : "sound_sink");
		if (done > N) c.sig(sg);
	});
}

VH_GROUP(replicate, 400, 6000, 200)
{
	Guard g(c, "replicator-hang");
	auto& r = c.rng;
	struct Sink { std::unique_ptr<FaultStream> real, model; };
	std::vector<Sink> sinks;
	uint64_t sg = 0;
	auto add = [&](sx::replicator& rep) {
		Sink s;
		s.real = std::make_unique<FaultStream>();
		s.model = std::make_unique<FaultStream>();
		if (r.chance(1, 4)) {
			s.real->fail_write_at = s.model->fail_write_at = static_cast<size_t>(r.below(600));
			s.real->transient = s.model->transient = r.coin();
		}
		s.real->fail_flush = s.model->fail_flush = r.chance(1, 10);
		s.real->threaded = true;
		s.real->jit = Rng(r.next());
		rep.push_back(s.real.get());
		sinks.push_back(std::move(s));
	};
	auto compare = [&](Sink& s) {
		VH_CHECK(c, s.real->out == s.model->out, "replicator-data", "sink has %zu bytes, want %zu", s.real->out.size(), s.model->out.size());
		VH_CHECK(c, s.real->flushes == s.model->flushes && s.real->closes == s.model->closes, "replicator-forward", "%u flushes %u closes, want %u %u", s.real->flushes, s.real->closes, s.model->flushes, s.model->closes);
	};
	{
		sx::replicator rep;
		for (size_t n = r.below(6); n; n--) add(rep);
		for (unsigned i = 0, n = 5 + static_cast<unsigned>(r.below(25)); i < n; i++) {
			auto expect = [&](state_t& st, const FaultStream& m) { if (st == state_t::ok) st = m.state(); };
			state_t want = state_t::ok;
			switch (r.below(12)) {
			case 0: rep.flush(); for (auto& s : sinks) { s.model->flush(); expect(want, *s.model); } VH_CHECK(c, rep.state() == want, "replicator-state", "flush: state %s want %s", sname(rep.state()), sname(want)); sg = mix(sg + 1); break;
			case 1: if (!r.chance(1, 3)) break; rep.close(); for (auto& s : sinks) { s.model->close(); expect(want, *s.model); } VH_CHECK(c, rep.state() == want, "replicator-state", "close: state %s want %s", sname(rep.state()), sname(want)); sg = mix(sg + 2); break;
			case 2: if (sinks.size() < 6) add(rep); sg = mix(sg + 3); break;
			case 3:
				if (!sinks.empty()) {
					size_t k = static_cast<size_t>(r.below(sinks.size()));
					rep.remove(sinks[k].real.get());
					compare(sinks[k]);
					sinks.erase(sinks.begin() + k); // The removed stream is gone at once
					sg = mix(sg + 4 + k);
				}
				else { FaultStream other; rep.remove(&other); }
				break;
			default: {
				auto v = r.bytes(r.size(200));
				Exact<uint8_t> e(v);
				size_t k = rep.write(e.data(), v.size()), m = v.size();
				for (auto& s : sinks) { m = std::min(m, s.model->write(v.data(), v.size())); expect(want, *s.model); }
				VH_CHECK(c, k == m, "replicator-count", "write(%zu) to %zu sinks returned %zu, want %zu", v.size(), sinks.size(), k, m);
				VH_CHECK(c, rep.state() == want, "replicator-state", "write: state %s want %s", sname(rep.state()), sname(want));
				sg = mix(sg ^ v.size());
				c.count("bytes", v.size() * sinks.size());
			}
			}
			for (auto& s : sinks) compare(s);
		}
	}
	for (auto& s : sinks) compare(s);
	if (!sinks.empty()) c.sig(sg);
}

// A stream that throws
struct Throwing : FaultStream
{
	size_t throw_read_at = SIZE_MAX, throw_write_at = SIZE_MAX; // at this many bytes
	unsigned throw_flush = 0, throw_close = 0;                  // so many times
	bool thrown = false;
	void boom(const char* what) { thrown = true; throw std::runtime_error(what); }
	size_t read(void* data, size_t length) override
	{
		if (length && pos >= throw_read_at) boom("read");
		return FaultStream::read(data, std::min(length, throw_read_at - pos));
	}
	size_t write(const void* data, size_t length) override
	{
		if (length && out.size() + length > throw_write_at) boom("write");
		return FaultStream::write(data, length);
	}
	void flush() override { if (throw_flush) { throw_flush--; boom("flush"); } FaultStream::flush(); }
	void close() override { if (throw_close) { throw_close--; boom("close"); } FaultStream::close(); }
};
// Told of a failure: by the exception or by the state
template <class S, class F> static bool told(S& s, F f)
{
	try { f(); }
	catch (const std::runtime_error&) { return true; }
	return s.state() == state_t::fail;
}
VH_GROUP(throwing_reader, 150, 3000, 60)
{
	Guard g(c, "async-read-hang");
	auto& r = c.rng;
	with_cap(r, [&](auto cap) {
		constexpr size_t N = decltype(cap)::value;
		Throwing src;
		src.in = r.bytes(1 + r.size(N < 16 ? 300 : 3000));
		src.threaded = true;
		src.jit = Rng(r.next());
		if (r.coin()) src.read_rng = r.next() | 1;
		src.throw_read_at = static_cast<size_t>(r.below(src.in.size()));
		std::vector<uint8_t> got;
		bool early = r.chance(1, 4);
		{
			sx::async_reader<N> a(src);
			for (unsigned i = 0; !early || i < 3; i++) {
				std::vector<uint8_t> b(1 + r.below(N * 2 + 20));
				size_t k = 0;
				if (told(a, [&] { k = a.read(b.data(), b.size()); })) {
					VH_CHECK(c, k || got.size() == src.throw_read_at, "async-read-lost", "the exception came after %zu of %zu bytes", got.size(), src.throw_read_at);
					for (unsigned j = 0; j < 2; j++) VH_CHECK(c, told(a, [&] { k = a.read(b.data(), b.size()); }) && !k, "async-read-after-end", "the reader went on after an exception");
					break;
				}
				VH_CHECK(c, k || early, "async-read-swallowed", "end of data at %zu where the source threw at %zu", got.size(), src.throw_read_at);
				if (!k) break;
				got.insert(got.end(), b.begin(), b.begin() + k);
			}
		}
		VH_CHECK(c, got.size() <= src.throw_read_at && std::equal(got.begin(), got.end(), src.in.begin()), "async-read-data", "%zu bytes read are not the first of the source", got.size());
		c.count("exceptions", src.thrown);
		if (src.thrown) c.sig(hash_bytes(got.data(), got.size(), N));
	});
}
VH_GROUP(throwing_writer, 150, 3000, 60)
{
	Guard g(c, "async-write-hang");
	auto& r = c.rng;
	with_cap(r, [&](auto cap) {
		constexpr size_t N = decltype(cap)::value;
		Throwing sink;
		sink.threaded = true;
		sink.jit = Rng(r.next());
		auto all = r.bytes(1 + r.size(N < 16 ? 300 : 3000));
		sink.throw_write_at = static_cast<size_t>(r.below(all.size()));
		size_t done = 0;
		bool reported = false;
		{
			sx::async_writer<N> a(sink);
			while (done < all.size() && !reported) {
				size_t n = std::min<size_t>(all.size() - done, 1 + r.below(N * 2 + 20)), k = 0;
				reported = told(a, [&] { k = a.write(all.data() + done, n); });
				done += reported ? 0 : k;
				if (!reported && r.chance(1, 6)) reported = told(a, [&] { a.flush(); });
			}
			if (r.coin()) {
				bool flush = r.coin();
				bool now = told(a, [&] { if (flush) a.flush(); else a.close(); });
				if (done > sink.throw_write_at) VH_CHECK(c, reported || now, "async-write-unreported", "the sink threw at %zu of %zu bytes and neither write nor %s reported it", sink.throw_write_at, done, flush ? "flush" : "close");
			}
		}
		VH_CHECK(c, sink.out.size() <= all.size() && std::equal(sink.out.begin(), sink.out.end(), all.begin()), "async-write-data", "%zu bytes at the sink are not the first of those written", sink.out.size());
		c.count("exceptions", sink.thrown);
		if (sink.thrown) c.sig(hash_bytes(all.data(), done, N));
	});
}
VH_GROUP(throwing_sinks, 150, 3000, 60)
{
	Guard g(c, "replicator-hang");
	auto& r = c.rng;
	std::vector<std::unique_ptr<Throwing>> sinks;
	std::vector<uint8_t> want;
	uint64_t sg = 0, n = 0;
	{
		sx::replicator rep;
		for (size_t k = 1 + r.below(4); k; --k) {
			sinks.push_back(std::make_unique<Throwing>());
			sinks.back()->threaded = true;
			sinks.back()->jit = Rng(r.next());
			rep.push_back(sinks.back().get());
		}
		for (unsigned i = 0; i < 12; i++) {
			auto& bad = *sinks[r.below(sinks.size())];
			bool fault = r.coin();
			auto v = r.bytes(1 + r.size(200));
			auto op = r.below(4);
			if (fault) { if (op == 0) bad.throw_flush = 1; else if (op == 1) bad.throw_close = 1; else bad.throw_write_at = 0; }
			bool t = told(rep, [&] { if (op == 0) rep.flush(); else if (op == 1) rep.close(); else rep.write(v.data(), v.size()); });
			VH_CHECK(c, t == fault, "replicator-exception", "%s: exception or failure %s, a sink %s", op == 0 ? "flush" : op == 1 ? "close" : "write", t ? "told" : "not told", fault ? "threw" : "did not throw");
			if (op > 1) {
				for (auto& s : sinks) {
					if (fault && s.get() == &bad) s->throw_write_at = SIZE_MAX, s->out.insert(s->out.end(), v.begin(), v.end()); // The rest is compared as if it had
				}
				want.insert(want.end(), v.begin(), v.end());
			}
			for (auto& s : sinks) VH_CHECK(c, s->out == want, "replicator-data", "a sink has %zu bytes, want %zu", s->out.size(), want.size());
			n += fault;
			sg = mix(sg ^ op ^ v.size() << 8 ^ fault << 4);
		}
	}
	c.count("exceptions", n);
	if (n) c.sig(sg);
}

// Everything at once: source -> reader -> bulk copy -> replicator -> writers.
VH_GROUP(pipeline, 200, 4000, 100)
{
	Guard g(c, "pipeline-hang");
	auto& r = c.rng;
	FaultStream src, s1, s2;
	src.in = r.bytes(1 + r.below(20000));
	src.read_rng = r.next() | 1;
	for (auto p : { &src, &s1, &s2 }) { p->threaded = true; p->jit = Rng(r.next()); }
	bool failing = r.chance(1, 4);
	src.end_with_data = r.chance(1, 3);
	if (failing) src.fail_read_at = static_cast<size_t>(r.below(src.in.size() + 1));
	size_t want = std::min(src.in.size(), src.fail_read_at);
	size_t amount = r.chance(1, 3) ? static_cast<size_t>(r.below(src.in.size() + 10)) : SIZE_MAX;
	{
		sx::async_reader<100> rd(src);
		sx::async_writer<37> w1(s1);
		sx::async_writer<500> w2(s2);
		sx::replicator rep;
		rep.push_back(&w1);
		rep.push_back(&w2);
		auto n = rep.write_stream(rd, amount == SIZE_MAX ? sx::fsize_max : amount);
		VH_CHECK(c, n == std::min(want, amount), "pipeline-count", "copied %llu, want %zu", (unsigned long long)n, std::min(want, amount));
		bool fail = failing && amount > want;
		VH_CHECK(c, rep.state() == (fail ? state_t::fail : state_t::ok), "pipeline-state", "state %s after copying %llu, source %s", sname(rep.state()), (unsigned long long)n, failing ? "fails" : "sound");
		rep.flush();
		VH_CHECK(c, rep.ok(), "pipeline-state", "flush failed");
		VH_CHECK(c, s1.flushes == 1 && s2.flushes == 1, "pipeline-flush", "flush forwarded %u and %u times", s1.flushes, s2.flushes);
		VH_CHECK(c, s1.out.size() == n && s2.out.size() == n, "pipeline-lost", "%zu and %zu bytes at the sinks, %llu copied", s1.out.size(), s2.out.size(), (unsigned long long)n);
	}
	VH_CHECK(c, s1.out == s2.out && s1.out.size() <= src.in.size() && std::equal(s1.out.begin(), s1.out.end(), src.in.begin()), "pipeline-data", "content differs");
	c.count("bytes", s1.out.size());
	c.sig(hash_bytes(src.in.data(), src.in.size()));
}
VH_MAIN
