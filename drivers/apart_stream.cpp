// C06: streams, records and containers used from several threads, each with its own objects.
#include "fstreams.hpp"
#include "apart.hpp"
#include <sstream>
#include <sys/socket.h>
#include <stdex/compat.hpp>
#include <stdex/base64.hpp>
#include <stdex/hash.hpp>
#include <stdex/idrec.hpp>
#include <stdex/memory.hpp>
#include <stdex/minisign.hpp>
#include <stdex/pool.hpp>
#include <stdex/progress.hpp>
#include <stdex/ring.hpp>
#include <stdex/socket.hpp>
#include <stdex/vector_queue.hpp>
#include <stdex/watchdog.hpp>
#include <stdex/wav.hpp>
#include <stdex/zlib.hpp>
#include <numa.h>

using namespace vh;
using apart::Sum;

// libnuma fills its CPU mask cache lazily and unsynchronised: filled here, before any thread starts.
static int g_numa_warm = [] { for (int i = 0, n = numa_num_configured_cpus(); i < n; i++) numa_node_of_cpu(i); return numa_node_of_cpu(sched_getcpu()); }();

static std::string text(Rng& r, size_t max) { std::string s; for (size_t n = r.size(max); n; --n) s += static_cast<char>(r.chance(1, 8) ? '\n' : 1 + r.below(126)); return s; }
static size_t len(Rng& r) { return r.chance(1, 6) ? r.below(3000) : r.below(60); }
static void state(Sum& z, const sx::basic& f) { apart::tell(f.state() == sx::state_t::fail); z.num(static_cast<uint64_t>(f.state())); }

// What can be done with any file
static void file_steps(Sum& z, Rng& r, sx::basic_file& f)
{
	for (size_t n = 5 + r.below(25); n; --n) {
		switch (r.below(16)) {
		case 0: case 1: { auto b = r.bytes(len(r)); z.num(f.write(b.data(), b.size())); break; }
		case 2: case 3: { std::vector<uint8_t> b(len(r)); b.resize(f.read(b.data(), b.size())); z.vec(b); break; }
		case 4: case 5: z.num(f.seekbeg(static_cast<sx::fpos_t>(r.below(static_cast<uint64_t>(f.size()) + 1)))); break;
		case 6: f.truncate(); break;
		case 7: { std::string s; f.readln(s); z.str(s); break; }
		case 8: { std::wstring s; stdex::charset_encoder<char, wchar_t> e(stdex::charset_id::utf8, stdex::wchar_t_charset); try { f.readln(s, e); z.str(s); } catch (const std::exception& x) { z.problem(x); } break; }
		case 9: z.num(f.write_sprintf("%d %s %x\n", nullptr, static_cast<int>(r.next()), text(r, 40).c_str(), static_cast<unsigned>(r.next()))); break;
		case 10: z.num(f.write_array(L"mi\u010dka", sizeof(wchar_t), 5)); break;
		case 11: f << static_cast<uint16_t>(r.next()) << text(r, 30) << static_cast<double>(r.below(1000)); break;
		case 12: {
			uint32_t v = 0;
			std::string s;
			if (f.size() - f.tell() > 40) { f >> v; z.num(v); }
			break;
		}
		case 13: f.write_byte(static_cast<uint8_t>(r.next()), r.below(r.chance(1, 4) ? 400 : 40)); break;
		case 14: { auto v = f.read_remainder(r.below(300)); z.vec(v); break; }
		default: f.skip(r.below(20)); break;
		}
		state(z, f);
		z.num(f.tell());
		if (f.size() > 20000) f.seekbeg(0);
	}
	z.num(f.size());
	f.seekbeg(0);
	auto all = f.read_remainder();
	state(z, f);
	z.vec(all);
}

APART(memory_file) { Sum z; sx::memory_file f; file_steps(z, r, f); return z.h; }
APART(cache)
{
	Sum z;
	sx::memory_file f;
	{
		sx::cache c(f, 1 + r.below(300));
		file_steps(z, r, c);
	}
	z.raw(f.data(), static_cast<size_t>(f.size()));
	return z.h;
}
APART(diag_file)
{
	Sum z;
	sx::memory_file a, b;
	sx::basic_file* l[] = { &a, &b };
	sx::diag_file f(l, 2);
	file_steps(z, r, f);
	return z.h;
}
static std::string scratch_name()
{
	static std::atomic<uint64_t> n{ 0 };
	return scratch().file(fmt("f%llu", static_cast<unsigned long long>(n.fetch_add(1, std::memory_order_relaxed))).c_str());
}
static int g_scratch = (scratch(), 0);
APART(disk_file)
{
	Sum z;
	auto name = scratch_name();
	{
		sx::file f(name, sx::mode_for_reading | sx::mode_for_writing | sx::mode_create | sx::mode_binary);
		state(z, f);
		file_steps(z, r, f);
	}
	z.num(sx::file::exists(name));
	unlink(name.c_str());
	return z.h;
}
APART(cached_disk_file)
{
	Sum z;
	auto name = scratch_name();
	{
		sx::cached_file f(name, sx::mode_for_reading | sx::mode_for_writing | sx::mode_create | sx::mode_binary, 1 + r.below(200));
		file_steps(z, r, f);
	}
	{
		sx::memory_file f;
		f.load(name, sx::mode_for_reading | sx::mode_open_existing | sx::mode_binary);
		state(z, f);
		z.raw(f.data(), static_cast<size_t>(f.size()));
	}
	unlink(name.c_str());
	return z.h;
}
APART(fifo)
{
	Sum z;
	sx::fifo f;
	for (size_t n = 5 + r.below(30); n; --n) {
		if (r.coin()) {
			auto b = r.bytes(len(r));
			auto k = f.write(b.data(), b.size());
			if (!f.ok()) k = f.write(b.data(), b.size()); // Out of memory: again
			z.num(k);
		}
		else if (r.chance(1, 4)) f.skip(r.below(200));
		else if (r.chance(1, 8)) f.write_byte(7, r.below(300));
		else { std::vector<uint8_t> b(len(r)); b.resize(f.read(b.data(), b.size())); z.vec(b); }
		state(z, f), z.num(f.size());
	}
	return z.h;
}
APART(filters)
{
	Sum z;
	FaultStream s;
	s.in = r.bytes(r.size(2000));
	s.read_rng = r.next() | 1;
	{
		sx::buffer b(s, r.below(80), r.below(80));
		sx::limiter l(b, r.below(1500), r.below(1500));
		sx::window w(l, static_cast<sx::fpos_t>(r.below(100)), r.below(1000), static_cast<sx::fpos_t>(r.below(100)), r.below(1000));
		for (size_t n = 5 + r.below(20); n; --n) {
			if (r.coin()) { auto d = r.bytes(len(r)); z.num(w.write(d.data(), d.size())); }
			else { std::vector<uint8_t> d(len(r)); d.resize(w.read(d.data(), d.size())); z.vec(d); }
			state(z, w);
		}
	}
	z.vec(s.out);
	return z.h;
}
APART(file_window)
{
	Sum z;
	sx::memory_file f;
	auto b = r.bytes(800);
	f.write(b.data(), b.size());
	state(z, f);
	sx::file_window w(f, 100, 400);
	for (size_t n = 5 + r.below(20); n; --n) {
		switch (r.below(3)) {
		case 0: z.num(w.seekbeg(static_cast<sx::fpos_t>(r.below(400)))); break;
		case 1: { std::vector<uint8_t> d(len(r)); d.resize(w.read(d.data(), d.size())); z.vec(d); break; }
		default: { auto d = r.bytes(r.below(30)); z.num(w.write(d.data(), d.size())); }
		}
		z.num(w.tell()), state(z, w);
	}
	z.raw(f.data(), static_cast<size_t>(f.size()));
	return z.h;
}
APART(asynchronous)
{
	Sum z;
	FaultStream s, d;
	s.in = r.bytes(r.size(3000));
	{
		sx::async_reader<64> a(s);
		sx::async_writer<32> w(d);
		z.num(w.write_stream(a));
	}
	z.num(d.out == s.in);
	z.vec(d.out);
	return z.h;
}
APART(replicated)
{
	Sum z;
	FaultStream a, b;
	auto d = r.bytes(r.size(1000));
	{
		sx::replicator f;
		apart::insist([&] { f.push_back(&a); });
		apart::insist([&] { f.push_back(&b); });
		for (size_t i = 0; i < d.size();) { size_t n = std::min<size_t>(d.size() - i, 1 + r.below(300)); z.num(f.write(d.data() + i, n)); i += n; }
		f.flush();
	}
	z.vec(a.out), z.vec(b.out);
	return z.h;
}
APART(pipe_and_socket)
{
	Sum z;
	int p[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return 0;
	auto d = r.bytes(r.size(2000));
	{
		sx::socket a(p[0]), b(p[1]);
		z.num(a.write_array(d.data(), 1, d.size()));
		a.close();
		auto v = b.read_remainder();
		state(z, b);
		z.num(v == d);
	}
	if (pipe(p)) return 0;
	{
		sx::basic_sys a(p[0]), b(p[1]);
		z.num(b.write_array(d.data(), 1, d.size()));
		b.close();
		auto v = a.read_remainder();
		state(z, a);
		z.num(v == d);
	}
	return z.h;
}
APART(stream_filters)
{
	Sum z;
	sx::memory_file f;
	auto d = r.bytes(r.size(1500));
	{
		stdex::base64_writer w(f);
		stdex::md5_hash m;
		stdex::stream_hasher<stdex::md5_t> h(m, w);
		z.num(h.write_array(d.data(), 1, d.size()));
		m.finalize();
		auto v = m.data();
		z.raw(&v, m.size());
		state(z, h);
		w.close();
		state(z, w);
	}
	z.raw(f.data(), static_cast<size_t>(f.size()));
	f.seekbeg(0);
	stdex::base64_reader b(f);
	auto v = b.read_remainder();
	z.num(v == d);
	state(z, b);
	return z.h;
}
APART(line_kinds)
{
	Sum z;
	sx::memory_file f;
	switch (r.below(3)) {
	case 0: f.write_charset(stdex::charset_id::utf8); break;
	case 1: f.write_charset(stdex::charset_id::utf16); break;
	}
	state(z, f);
	auto t = text(r, 200);
	f.write_array(t.data(), 1, t.size());
	state(z, f);
	f.seekbeg(0);
	z.num(static_cast<uint64_t>(f.read_charset(stdex::charset_id::windows1250)));
	while (f.ok()) { std::string s; f.readln(s); z.str(s); }
	return z.h;
}
APART(signature_file)
{
	Sum z;
	auto junk = [&](size_t n) { std::string s; stdex::base64_enc e; auto b = r.bytes(n); if (n > 1) b[0] = 'E', b[1] = r.coin() ? 'd' : 'D'; e.encode(s, b.data(), b.size()); return s; };
	std::string s = "untrusted comment: " + text(r, 10) + "\n" + junk(74) + "\ntrusted comment: x\n" + junk(64) + "\n";
	if (r.chance(1, 4)) s.resize(r.below(s.size()));
	sx::memory_file f;
	f.write(s.data(), s.size());
	f.seekbeg(0);
	uint8_t alg = 0, key[8] = {}, sig[64] = {}, gsig[64] = {};
	std::string comment;
	try { stdex::minisign::parse_minisig(f, alg, key, sig); }
	catch (const std::runtime_error& e) { z.problem(e); }
	z.num(alg), z.raw(key, 8), z.raw(sig, 64), z.raw(gsig, 64), z.str(comment);
	return z.h;
}
APART(wave_file)
{
	namespace wav = stdex::wav;
	Sum z;
	sx::memory_file f, g;
	sx::basic_file& o = f;
	wav::cue_ex_vector q;
	for (size_t i = 0, n = r.below(8); i < n; i++) {
		wav::cue_ex e;
		e.id = static_cast<uint32_t>(i * 7 % 11);
		e.position = static_cast<uint32_t>(r.next());
		if (r.coin()) e.title = text(r, 30);
		if (r.coin()) e.note = text(r, 30);
		if (r.coin()) e.duration = static_cast<uint32_t>(1 + r.below(1000)), e.description = text(r, 30);
		q.push_back(e);
	}
	wav::header h;
	h.type = 0x45564157;
	uint32_t riff = 0x46464952, size = 0, type = 0x45564157;
	o << riff << size << type;
	wav::format F;
	o << wav::format::record(F);
	o << q;
	state(z, f);
	size = static_cast<uint32_t>(f.size() - 8);
	f.seekbeg(4);
	o << size;
	f.seekbeg(0);
	sx::fpos_t end = 0;
	bool ok = wav::find_content(f, sx::fpos_max, &end);
	z.num(ok);
	state(z, f);
	wav::cue_ex_vector back;
	apart::tell(!ok);
	if (ok) { bool k = wav::read_cues(f, back, end); apart::tell(!k); z.num(k); }
	for (auto& e : back) z.num(e.id), z.num(e.position), z.num(e.duration), z.str(e.title), z.str(e.note), z.str(e.description);
	state(z, f);
	f.seekbeg(0);
	bool removed = wav::remove_cues(f, g);
	apart::tell(!removed), z.num(removed);
	state(z, f), state(z, g);
	z.raw(g.data(), static_cast<size_t>(g.size()));
	z.raw(f.data(), static_cast<size_t>(f.size()));
	return z.h;
}
struct Pack
{
	std::string d;
	friend sx::basic& operator<<(sx::basic& s, const Pack& p) { return s << p.d; }
	friend sx::basic& operator>>(sx::basic& s, Pack& p) { return s >> p.d; }
	friend std::ostream& operator<<(std::ostream& s, const Pack& p) { return s << p.d; }
	friend std::istream& operator>>(std::istream& s, Pack& p) { char b[8]; s.read(b, 2); p.d.assign(b, static_cast<size_t>(s.gcount())); return s; }
};
APART(records)
{
	using R1 = stdex::idrec::record<Pack, uint32_t, 0x31323334, uint32_t, 4>;
	using R2 = stdex::idrec::record<Pack, uint32_t, 0x41424344, uint32_t, 4>;
	Sum z;
	sx::memory_file f;
	sx::basic_file& o = f;
	Pack p;
	for (size_t n = 1 + r.below(6); n; --n) { p.d = text(r, 50); if (r.coin()) o << R1(p); else o << R2(p); state(z, f); }
	f.seekbeg(0);
	while (R2::find(f)) { o >> R2(p); z.str(p.d); state(z, f); }
	z.raw(f.data(), static_cast<size_t>(f.size()));
	std::stringstream s;
	p.d = "ab";
	s << R1(p) << R2(p) << R1(p);
	apart::tell(!s);
	z.str(s.str());
	s.seekg(0);
	z.num(stdex::idrec::find<uint32_t, uint32_t, 4>(s, 0x41424344));
	return z.h;
}
// Records written to and read from a stream without a position
APART(records_in_stream)
{
	using R1 = stdex::idrec::record<Pack, uint32_t, 0x31323334, uint32_t, 4>;
	Sum z;
	sx::memory_file f;
	sx::limiter l(f, sx::fsize_max, sx::fsize_max);
	sx::basic& o = l;
	Pack p;
	size_t n = 1 + r.below(4);
	for (size_t i = 0; i < n; i++) { p.d = text(r, 50); o << R1(p); state(z, o); }
	state(z, f);
	z.raw(f.data(), static_cast<size_t>(f.size()));
	f.seekbeg(0);
	for (size_t i = 0; i < n; i++) {
		uint32_t id;
		o >> id;
		z.num(id);
		o >> R1(p);
		z.str(p.d), state(z, o);
	}
	return z.h;
}
APART(wave_data)
{
	namespace wav = stdex::wav;
	Sum z;
	sx::memory_file f;
	sx::basic_file& o = f;
	wav::format F, G;
	auto b = r.bytes(r.size(200));
	F.extra.write(b.data(), b.size());
	state(z, F.extra);
	F.sample_rate = static_cast<uint32_t>(r.next());
	wav::data D, E;
	b = r.bytes(r.size(3000));
	D.content.write(b.data(), b.size());
	state(z, D.content);
	o << wav::format::record(F);
	state(z, f);
	o << wav::data::record(D);
	state(z, f);
	f.seekbeg(0);
	uint32_t id;
	o >> id >> wav::format::record(G);
	state(z, f), state(z, G.extra);
	z.num(G.sample_rate), z.raw(G.extra.data(), static_cast<size_t>(G.extra.size()));
	o >> id >> wav::data::record(E);
	state(z, f), state(z, E.content);
	z.raw(E.content.data(), static_cast<size_t>(E.content.size()));
	return z.h;
}
template <class T> struct Rec : stdex::progress<T>
{
	Sum z;
	void set_text(const char* m) override { z.raw(m, ::strlen(m)); }
	void set_range(T a, T b) override { z.num(static_cast<uint64_t>(a)), z.num(static_cast<uint64_t>(b)); }
	void set(T v) override { z.num(static_cast<uint64_t>(v)); }
	void show(bool s) override { z.num(s); }
	bool cancel() override { return false; }
};
APART(progress_sections)
{
	Rec<int64_t> h;
	{
		stdex::global_progress<int64_t> g(&h);
		g.set_global_range(0, 1000000);
		g.set_section_range(100, 5000);
		g.set_range(0, 300);
		g.show(true);
		for (unsigned i = 0; i < 30; i++) g.set(static_cast<int64_t>(r.below(301)));
		g.set_text("text");
	}
	stdex::progress<int64_t>* host = &h;
	stdex::progress_switcher<int64_t> s(host);
	s.set_range(0, 10);
	s.set(static_cast<int64_t>(r.below(11)));
	stdex::aggregate_progress<int64_t> a(2, &h);
	return h.z.h;
}
APART(queue_of_strings)
{
	Sum z;
	stdex::vector_queue<std::string> q(1 + r.below(20));
	for (size_t n = 60; n; --n) {
		switch (r.below(4)) {
		case 0: case 1: { auto t = text(r, 30); apart::insist([&] { q.push_back(t); }); break; }
		case 2: { auto t = text(r, 30); apart::insist([&] { q.push_front(t); }); break; }
		default: if (!q.empty()) { z.str(q.front()); q.pop_front(); }
		}
		z.num(q.size());
	}
	for (size_t i = 0; i < q.size(); i++) z.str(q[i]);
	auto copy = apart::insist([&] { return q; });
	stdex::vector_queue<std::string> other(1 + r.below(20));
	other.push_back("other");
	apart::insist([&] { other = q; });
	for (size_t i = 0; i < q.size(); i++) z.str(copy[i]), z.str(other[i]);
	return z.h;
}
APART(own_ring_and_pool)
{
	Sum z;
	stdex::ring<uint8_t, 16> g;
	size_t used = 0;
	for (size_t n = 60; n; --n) { // Neither end waits: there is room and there is data.
		if (used < 16 && (!used || r.coin())) {
			auto [p, k] = g.back();
			k = std::min<size_t>(k, 1 + r.below(16 - used));
			for (size_t i = 0; i < k; i++) p[i] = static_cast<uint8_t>(r.next());
			g.push(k);
			used += k;
		}
		else {
			auto [p, k] = g.front();
			k = 1 + r.below(k);
			z.raw(p, k);
			g.pop(k);
			used -= k;
		}
	}
	stdex::pool<std::unique_ptr<std::string>> p;
	for (size_t n = 30; n; --n) {
		if (r.coin()) {
			auto x = std::make_unique<std::string>(text(r, 20));
			apart::insist([&] { p.push(std::move(x), 0); });
		}
		else { auto x = p.pop(0); z.num(!!x); if (x) z.str(*x); }
	}
	return z.h;
}
APART(own_watchdog)
{
	stdex::watchdog<std::chrono::steady_clock, std::chrono::hours> w(std::chrono::hours(1), [] {});
	for (size_t n = r.below(5); n; --n) w.reset();
	return 1;
}
APART(wiped_memory)
{
	Sum z;
	std::basic_string<char, std::char_traits<char>, stdex::sanitizing_allocator<char>> s;
	for (size_t n = r.below(20); n; --n) s += text(r, 50).c_str();
	z.raw(s.data(), s.size());
	std::vector<uint8_t, stdex::sanitizing_allocator<uint8_t>> v;
	for (size_t n = r.below(300); n; --n) v.push_back(static_cast<uint8_t>(r.next()));
	z.raw(v.data(), v.size());
	return z.h;
}

#ifdef APART_OOM
VH_GROUP(stream_oom, 2500, 40000, 400) { apart::out_of_memory(c); }
#else
VH_GROUP(stream_apart, 2500, 60000, 500) { apart::together(c); }
#endif
VH_MAIN
