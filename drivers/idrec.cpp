// R01: identified records against an independent layout and walker.
#include "fstreams.hpp"
#include <stdex/compat.hpp>
#include <stdex/idrec.hpp>
#include <sstream>

using namespace vh;
using bytes = std::vector<uint8_t>;

// Payload of its own length: 16-bit count and bytes
struct Pack
{
	bytes d;
	friend sx::basic& operator<<(sx::basic& s, const Pack& p)
	{
		s << static_cast<uint16_t>(p.d.size());
		if (s.ok() && !p.d.empty()) s.write_array(p.d.data(), 1, p.d.size());
		return s;
	}
	friend sx::basic& operator>>(sx::basic& s, Pack& p)
	{
		uint16_t n = 0;
		s >> n;
		p.d.clear();
		if (!s.ok()) return s;
		p.d.resize(n);
		p.d.resize(n ? s.read_array(p.d.data(), 1, n) : 0);
		return s;
	}
	friend std::ostream& operator<<(std::ostream& s, const Pack& p)
	{
		uint16_t n = static_cast<uint16_t>(p.d.size());
		s.write(reinterpret_cast<const char*>(&n), 2);
		return s.write(reinterpret_cast<const char*>(p.d.data()), n);
	}
	friend std::istream& operator>>(std::istream& s, Pack& p)
	{
		uint16_t n = 0;
		s.read(reinterpret_cast<char*>(&n), 2);
		p.d.clear();
		if (!s.good()) return s;
		p.d.resize(n);
		s.read(reinterpret_cast<char*>(p.d.data()), n);
		p.d.resize(static_cast<size_t>(s.gcount()));
		return s;
	}
};

template <class T> static void put(bytes& b, T v) { for (size_t i = 0; i < sizeof(T); i++) b.push_back(static_cast<uint8_t>(v >> (8 * i))); }
template <class T> static void put_record(bytes& b, uint64_t id, const bytes& payload)
{
	put(b, static_cast<typename T::id_t>(id));
	put(b, static_cast<typename T::size_t_>(payload.size()));
	b.insert(b.end(), payload.begin(), payload.end());
	if (payload.size() % T::align) b.insert(b.end(), T::align - payload.size() % T::align, 0);
}
static bytes pack_bytes(const Pack& p) { bytes b; put(b, static_cast<uint16_t>(p.d.size())); b.insert(b.end(), p.d.begin(), p.d.end()); return b; }

template <class I, class S, S A> struct Kind
{
	using id_t = I;
	using size_t_ = S;
	static constexpr size_t align = A, header = sizeof(I) + sizeof(S);
	static constexpr I ida = static_cast<I>(0x41424344), idb = static_cast<I>(0x61626364), idc = static_cast<I>(0xfffffffe);
	using RA = stdex::idrec::record<Pack, I, ida, S, A>;
	using RB = stdex::idrec::record<Pack, I, idb, S, A>;
	using RC = stdex::idrec::record<Pack, I, idc, S, A>;
	static I id(size_t k) { return k == 0 ? ida : k == 1 ? idb : idc; }
	template <class St> static void write(St& s, size_t k, const Pack& p)
	{
		if (k == 0) s << RA(p); else if (k == 1) s << RB(p); else s << RC(p);
	}
	template <class St> static void read(St& s, size_t k, Pack& p)
	{
		if (k == 0) s >> RA(p); else if (k == 1) s >> RB(p); else s >> RC(p);
	}
	template <class St, class P> static bool find(St& s, size_t k, P end)
	{
		return k == 0 ? RA::find(s, end) : k == 1 ? RB::find(s, end) : RC::find(s, end);
	}
	template <class St> static auto open(St& s, size_t k) { return k == 0 ? RA::open(s) : k == 1 ? RB::open(s) : RC::open(s); }
	template <class St, class P> static auto close(St& s, size_t k, P start) { return k == 0 ? RA::close(s, start) : k == 1 ? RB::close(s, start) : RC::close(s, start); }
	// Where identifier is found, or npos
	static uint64_t walk(const bytes& b, uint64_t pos, uint64_t the_id, uint64_t end)
	{
		while (end == UINT64_MAX || pos < end) {
			if (pos + sizeof(I) > b.size()) return UINT64_MAX;
			I v; memcpy(&v, &b[pos], sizeof(I));
			pos += sizeof(I);
			if (v == the_id) return pos;
			if (pos + sizeof(S) > b.size()) return UINT64_MAX;
			S n; memcpy(&n, &b[pos], sizeof(S));
			if (n > b.size()) return UINT64_MAX;
			pos += sizeof(S) + static_cast<uint64_t>(n);
			if (n % A) pos += A - n % A;
		}
		return UINT64_MAX;
	}
};

// Fails every write from one on
struct DyingFile : public IdealFile
{
	unsigned left = UINT_MAX;
	bool once = false; // Fails once, and works after that
	virtual size_t write(const void* data, size_t length)
	{
		if (!length) { m_state = state_t::ok; return 0; }
		if (!left) { if (once) left = UINT_MAX; faults++; m_state = state_t::fail; return 0; }
		--left;
		return IdealFile::write(data, length);
	}
};

template <class K> static Pack random_pack(Rng& r)
{
	Pack p;
	uint64_t cap = sizeof(typename K::size_t_) == 1 ? 253 : 65533;
	size_t n = r.chance(1, 40) ? static_cast<size_t>(cap - r.below(10)) : r.size(std::min<size_t>(cap, 200));
	p.d = data_bytes(r, n);
	return p;
}

// Random tree of records written through open/close and by value
struct Node { size_t k; Pack p; std::vector<Node> kids; bool group = false; };
template <class K> static Node random_node(Rng& r, int depth)
{
	Node n;
	n.k = r.below(3);
	if (depth && r.chance(1, 3)) {
		n.group = true;
		for (size_t k = r.below(4); k; --k) n.kids.push_back(random_node<K>(r, depth - 1));
		n.p.d = data_bytes(r, r.below(4)); // Trailing bytes
	}
	else n.p = random_pack<K>(r);
	return n;
}
template <class K> static bytes layout(const Node& n)
{
	bytes b, o;
	if (n.group) {
		for (auto& k : n.kids) { auto x = layout<K>(k); b.insert(b.end(), x.begin(), x.end()); }
		b.insert(b.end(), n.p.d.begin(), n.p.d.end());
	}
	else b = pack_bytes(n.p);
	put_record<K>(o, K::id(n.k), b);
	return o;
}
static size_t put_raw(sx::basic& s, const bytes& b) { return b.empty() ? 0 : s.write_array(b.data(), 1, b.size()); }
static size_t put_raw(std::ostream& s, const bytes& b) { s.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size())); return b.size(); }
template <class K, class St> static void emit(St& s, const Node& n, uint64_t& at, Case& c)
{
	if (!n.group) { K::write(s, n.k, n.p); at += layout<K>(n).size(); return; }
	auto start = K::open(s, n.k);
	VH_CHECK(c, static_cast<uint64_t>(start) == at, "open-position", "%llu, %llu expected", (unsigned long long)start, (unsigned long long)at);
	uint64_t in = at + K::header;
	for (auto& k : n.kids) emit<K>(s, k, in, c);
	put_raw(s, n.p.d);
	auto end = K::close(s, n.k, start);
	at += layout<K>(n).size();
	VH_CHECK(c, static_cast<uint64_t>(end) == at, "close-position", "%llu, %llu expected", (unsigned long long)end, (unsigned long long)at);
}

template <class K> static void write_case(Case& c)
{
	auto& r = c.rng;
	std::vector<Node> v;
	bytes want = data_bytes(r, r.below(20));
	size_t base = want.size();
	for (size_t k = r.below(5) + 1; k; --k) {
		auto n = random_node<K>(r, sizeof(typename K::size_t_) == 1 ? 0 : 2);
		auto x = layout<K>(n);
		if (x.size() - K::header > (sizeof(typename K::size_t_) == 1 ? 255u : sizeof(typename K::size_t_) == 2 ? 65535u : 0xffffffffu)) continue;
		v.push_back(n);
		want.insert(want.end(), x.begin(), x.end());
	}
	uint64_t at = base;
	bytes got;
	switch (r.below(4)) {
	case 0: {
		sx::memory_file f;
		put_raw(f, bytes(want.begin(), want.begin() + base));
		for (auto& n : v) emit<K>(f, n, at, c);
		VH_CHECK(c, f.ok() && f.tell() == want.size(), "write-position", "%llu, %zu expected", (unsigned long long)f.tell(), want.size());
		got.assign(static_cast<const uint8_t*>(f.data()), static_cast<const uint8_t*>(f.data()) + f.size());
		break;
	}
	case 1: { // Over old content
		IdealFile f;
		f.d.assign(want.size(), 0xee);
		put_raw(f, bytes(want.begin(), want.begin() + base));
		for (auto& n : v) emit<K>(f, n, at, c);
		VH_CHECK(c, f.ok() && f.tell() == want.size(), "write-position", "%llu, %zu expected", (unsigned long long)f.tell(), want.size());
		got = f.d;
		break;
	}
	case 2: {
		std::stringstream f;
		put_raw(f, bytes(want.begin(), want.begin() + base));
		for (auto& n : v) emit<K>(f, n, at, c);
		VH_CHECK(c, f.good() && static_cast<size_t>(f.tellp()) == want.size(), "write-position", "%lld, %zu expected", (long long)f.tellp(), want.size());
		auto s = f.str();
		got.assign(s.begin(), s.end());
		break;
	}
	default: { // Not seekable
		FaultStream f;
		sx::basic& b = f;
		put_raw(b, bytes(want.begin(), want.begin() + base));
		for (auto& n : v) {
			if (n.group) { put_raw(b, layout<K>(n)); continue; }
			K::write(b, n.k, n.p);
		}
		VH_CHECK(c, b.ok(), "write-state", "%s", sname(b.state()));
		got = f.out;
	}
	}
	VH_CHECK(c, got == want, "layout", "%s, %s expected", show(got).c_str(), show(want).c_str());
	if (!v.empty()) c.sig(hash_bytes(want.data(), want.size()));
}

template <class K> static void read_case(Case& c)
{
	auto& r = c.rng;
	using S = typename K::size_t_;
	struct Rec { size_t k; Pack p; size_t at; size_t end; };
	std::vector<Rec> recs;
	bytes b = bytes(r.below(8), 0x55);
	size_t base = b.size();
	for (size_t k = r.below(7) + 1; k; --k) {
		Rec e;
		e.k = r.below(3);
		e.p = random_pack<K>(r);
		e.at = b.size();
		auto x = pack_bytes(e.p);
		if (r.chance(1, 4)) { // More in the record than this version understands
			auto y = data_bytes(r, r.below(20));
			if (x.size() + y.size() <= std::numeric_limits<S>::max()) x.insert(x.end(), y.begin(), y.end());
		}
		if (r.chance(1, 4)) put_record<K>(b, static_cast<typename K::id_t>(K::ida + 1 + r.below(5)), data_bytes(r, r.below(100))), e.at = b.size(); // Unknown
		put_record<K>(b, K::id(e.k), x);
		e.end = b.size();
		recs.push_back(e);
	}
	size_t content = b.size();
	size_t end = r.coin() ? content : SIZE_MAX;
	if (end != SIZE_MAX) { auto more = data_bytes(r, r.below(40)); b.insert(b.end(), more.begin(), more.end()); if (r.coin()) put_record<K>(b, K::ida, bytes{ 0, 0 }); }
	unsigned how = static_cast<unsigned>(r.below(4));
	sx::memory_file mem(b.size() + 1);
	IdealFile ideal;
	std::stringstream str(std::string(b.begin(), b.end()));
	mem.write_array(b.data(), 1, b.size());
	mem.seekbeg(base);
	ideal.d = b; ideal.pos = base;
	if (r.coin()) ideal.read_rng = r.next() | 1;
	str.seekg(static_cast<std::streamoff>(base));
	sx::basic_file* f = how == 0 ? static_cast<sx::basic_file*>(&mem) : &ideal;
	if (how < 3) {
		// Search for one identifier after another until none is found
		size_t pos = base;
		for (size_t guard = 0; guard < 30; guard++) {
			size_t k = r.below(3);
			auto w = K::walk(b, pos, K::id(k), end == SIZE_MAX ? UINT64_MAX : end);
			Pack p;
			bool got = how == 2 ? K::find(str, k, end == SIZE_MAX ? static_cast<std::streamoff>(-1) : static_cast<std::streamoff>(end)) : K::find(*f, k, end == SIZE_MAX ? sx::fpos_max : static_cast<sx::fpos_t>(end));
			VH_CHECK(c, got == (w != UINT64_MAX), "find", "%s from %zu", got ? "found" : "not found", pos);
			if (got != (w != UINT64_MAX)) return;
			if (!got) {
				if (how == 2) str.clear(), str.seekg(static_cast<std::streamoff>(pos)); else f->seekbeg(pos);
				c.count("not_found");
				continue;
			}
			auto tell = how == 2 ? static_cast<uint64_t>(str.tellg()) : f->tell();
			VH_CHECK(c, tell == w, "find-position", "at %llu, %llu expected", (unsigned long long)tell, (unsigned long long)w);
			const Rec* e = nullptr;
			for (auto& x : recs) if (x.at + sizeof(typename K::id_t) == w) e = &x;
			if (!e) return;
			if (r.chance(1, 3)) { // Skip it
				bool ok = how == 2 ? stdex::idrec::ignore<S, static_cast<S>(K::align)>(str) : stdex::idrec::ignore<S, static_cast<S>(K::align)>(*f);
				VH_CHECK(c, ok, "ignore", "record at %zu", e->at);
			}
			else {
				if (how == 2) K::read(str, k, p); else K::read(*f, k, p);
				bool ok = how == 2 ? str.good() : f->ok();
				VH_CHECK(c, ok, "read-state", "record at %zu of %zu", e->at, content);
				VH_CHECK(c, p.d == e->p.d, "read", "%s, %s expected", show(p.d).c_str(), show(e->p.d).c_str());
			}
			tell = how == 2 ? static_cast<uint64_t>(str.tellg()) : f->tell();
			VH_CHECK(c, tell == e->end, "read-position", "at %llu, %zu expected", (unsigned long long)tell, e->end);
			if (tell != e->end) return;
			pos = e->end;
			c.count("records");
		}
	}
	else { // Not seekable, with short reads
		FaultStream s;
		s.in = b; s.pos = base;
		if (r.coin()) s.read_rng = r.next() | 1;
		sx::basic& st = s;
		size_t pos = base;
		while (pos < content) {
			typename K::id_t id = 0;
			if (!stdex::idrec::read_id(*f, id, end == SIZE_MAX ? sx::fpos_max : end)) c.fail("read-id", "at %zu", pos);
			f->seekbeg(pos);
			typename K::id_t id2 = 0;
			st >> id2;
			VH_CHECK(c, id == id2, "read-id", "at %zu", pos);
			const Rec* e = nullptr;
			for (auto& x : recs) if (x.at == pos) e = &x;
			if (!e || r.chance(1, 4)) {
				bool ok = stdex::idrec::ignore<S, static_cast<S>(K::align)>(st);
				S n; memcpy(&n, &b[pos + sizeof(typename K::id_t)], sizeof(n));
				pos += K::header + n; if (n % K::align) pos += K::align - n % K::align;
				VH_CHECK(c, ok, "ignore-stream", "up to %zu", pos);
			}
			else {
				Pack p;
				K::read(st, e->k, p);
				VH_CHECK(c, st.ok(), "read-stream-state", "record at %zu", e->at);
				VH_CHECK(c, p.d == e->p.d, "read-stream", "%s, %s expected", show(p.d).c_str(), show(e->p.d).c_str());
				pos = e->end;
				c.count("records");
			}
			VH_CHECK(c, s.pos == pos, "stream-position", "at %zu, %zu expected", s.pos, pos);
			if (s.pos != pos) return;
			f->seekbeg(pos);
		}
	}
	c.sig(hash_bytes(b.data(), b.size()));
}

// Truncated and mutated records: found where they are found, and nothing else happens.
template <class K> static void hostile_case(Case& c)
{
	auto& r = c.rng;
	using S = typename K::size_t_;
	bytes b;
	std::vector<size_t> heads;
	for (size_t k = r.below(6) + 1; k; --k) {
		heads.push_back(b.size());
		put_record<K>(b, r.coin() ? K::id(r.below(3)) : static_cast<typename K::id_t>(r.next()), data_bytes(r, r.size(100)));
	}
	for (size_t k = r.below(4); k; --k) {
		size_t h = r.pick(heads) + sizeof(typename K::id_t);
		uint64_t n = r.one<uint64_t>({ ~0ull, ~0ull - r.below(9), 0, 1, r.next(), 1ull << (8 * sizeof(S) - 1), b.size() });
		memcpy(&b[h], &n, sizeof(S));
	}
	if (r.coin()) b.resize(r.below(b.size() + 1));
	else if (r.coin() && !b.empty()) b[r.below(b.size())] = static_cast<uint8_t>(r.next());
	uint64_t end = r.coin() ? UINT64_MAX : r.below(b.size() + 10);
	size_t k = r.below(3);
	uint64_t pos = 0;
	auto w = K::walk(b, pos, K::id(k), end);
	bool got = false, end_ok = true;
	uint64_t tell = 0;
	Pack p;
	try {
	switch (r.below(sizeof(S) == 8 ? 2 : 3)) { // Standard streams count in signed 64 bits
	case 0: {
		sx::memory_file f(b.size() + 1);
		f.write_array(b.data(), 1, b.size());
		f.seekbeg(0);
		got = K::find(f, k, end == UINT64_MAX ? sx::fpos_max : end);
		tell = f.tell();
		if (got) { K::read(f, k, p); end_ok = !f.ok() || f.tell() > tell; }
		break;
	}
	case 1: {
		IdealFile f;
		f.d = b;
		got = K::find(f, k, end == UINT64_MAX ? sx::fpos_max : end);
		tell = f.tell();
		if (got) { K::read(f, k, p); end_ok = !f.ok() || f.tell() > tell; }
		break;
	}
	default: {
		std::stringstream f(std::string(b.begin(), b.end()));
		got = K::find(f, k, end == UINT64_MAX ? static_cast<std::streamoff>(-1) : static_cast<std::streamoff>(end));
		tell = got ? static_cast<uint64_t>(f.tellg()) : 0;
		if (got) K::read(f, k, p);
	}
	}
	}
	catch (const std::invalid_argument&) { // Offset too big to seek to
		VH_CHECK(c, sizeof(S) == 8, "hostile-exception", "size of %zu bytes", sizeof(S));
		c.count("refused");
		if (w == UINT64_MAX) got = false;
	}
	VH_CHECK(c, got == (w != UINT64_MAX) && (!got || tell == w), "find-hostile", "%s at %llu, %llu expected in %s", got ? "found" : "not found", (unsigned long long)tell, (unsigned long long)w, show(b).c_str());
	VH_CHECK(c, end_ok, "read-hostile", "record reading went backwards");
	if (got) { // The size says how much may have been read
		S n = 0;
		if (w + sizeof(S) <= b.size()) memcpy(&n, &b[w], sizeof(S));
		VH_CHECK(c, p.d.size() <= b.size(), "read-beyond", "%zu bytes", p.d.size());
		c.count("found");
	}
	c.sig(hash_bytes(b.data(), b.size(), end));
}

// Writing that fails for good does not look like success.
template <class K> static void fault_case(Case& c)
{
	auto& r = c.rng;
	DyingFile f;
	f.left = static_cast<unsigned>(r.below(20));
	f.once = r.coin();
	bool reported = false, chained = r.coin(); // Looked at in the end only
	size_t done = 0;
	for (size_t k = 1 + r.below(4); k; --k) {
		auto p = random_pack<K>(r);
		if (r.coin()) {
			size_t i = r.below(3);
			auto start = K::open(f, i);
			f << p;
			if (K::close(f, i, start) == sx::fpos_max) reported = true;
		}
		else if (r.coin()) K::write(static_cast<sx::basic&>(f), r.below(3), p);
		else K::write(f, r.below(3), p);
		if (chained && k > 1) continue;
		if (!f.ok()) { reported = true; break; }
		done++;
	}
	VH_CHECK(c, !f.faults || reported, "lost-fault", "record %zu not written, and nobody told", done);
	if (f.faults) c.sig(mix(f.d.size()) ^ hash_bytes(f.d.data(), f.d.size()));
}

// Identifiers read up to a limit, search without one, and records cut short that cannot be skipped.
template <class K> static void part_case(Case& c)
{
	auto& r = c.rng;
	using I = typename K::id_t;
	using S = typename K::size_t_;
	bytes b(r.below(8), 0x55);
	size_t base = b.size();
	auto d = data_bytes(r, r.size(60));
	size_t k = r.below(3);
	put_record<K>(b, K::id(k), d);
	const size_t whole = b.size();
	sx::memory_file mem(b.size() + 1);
	mem.write_array(b.data(), 1, b.size());
	std::stringstream str(std::string(b.begin(), b.end()));
	const bool text = r.coin();
	{
		I id = 0;
		size_t end = r.coin() ? SIZE_MAX : static_cast<size_t>(r.below(base + sizeof(I) + 3));
		bool got;
		str.seekg(static_cast<std::streamoff>(base));
		mem.seekbeg(base);
		if (text) got = end == SIZE_MAX && r.coin() ? stdex::idrec::read_id(str, id) : stdex::idrec::read_id(str, id, end == SIZE_MAX ? static_cast<std::streamoff>(-1) : static_cast<std::streamoff>(end));
		else got = end == SIZE_MAX && r.coin() ? stdex::idrec::read_id(mem, id) : stdex::idrec::read_id(mem, id, end == SIZE_MAX ? sx::fpos_max : static_cast<sx::fpos_t>(end));
		bool want = end == SIZE_MAX || base < end;
		uint64_t tell = text ? static_cast<uint64_t>(str.tellg()) : mem.tell();
		VH_CHECK(c, got == want && tell == (want ? base + sizeof(I) : base) && (!want || id == static_cast<I>(K::id(k))), "read-id-limit", "at %zu with limit %zd: %d, then at %llu", base, static_cast<ssize_t>(end), got, (unsigned long long)tell);
		str.clear();
		str.seekg(static_cast<std::streamoff>(whole));
		mem.seekbeg(whole);
		got = text ? stdex::idrec::read_id(str, id) : stdex::idrec::read_id(mem, id);
		VH_CHECK(c, !got, "read-id-end", "identifier read at the end");
		str.clear();
	}
	if constexpr (sizeof(S) < 8) {
		str.seekg(static_cast<std::streamoff>(base));
		mem.seekbeg(base);
		bool got = text ? (k == 0 ? K::RA::find(str) : k == 1 ? K::RB::find(str) : K::RC::find(str)) : (k == 0 ? K::RA::find(mem) : k == 1 ? K::RB::find(mem) : K::RC::find(mem));
		uint64_t tell = text ? static_cast<uint64_t>(str.tellg()) : mem.tell();
		VH_CHECK(c, got && tell == base + sizeof(I), "find-no-limit", "%s, at %llu", got ? "found" : "not found", (unsigned long long)tell);
		auto other = (k + 1) % 3;
		str.clear();
		str.seekg(static_cast<std::streamoff>(base));
		mem.seekbeg(base);
		got = text ? (other == 0 ? K::RA::find(str) : other == 1 ? K::RB::find(str) : K::RC::find(str)) : (other == 0 ? K::RA::find(mem) : other == 1 ? K::RB::find(mem) : K::RC::find(mem));
		VH_CHECK(c, !got, "find-no-limit", "found what is not there");
	}
	// Cut short
	const size_t at = base + sizeof(I), data_end = at + sizeof(S) + d.size();
	size_t cut = r.chance(1, 4) ? whole : static_cast<size_t>(r.range(at, data_end));
	if (cut == data_end && data_end != whole) cut = whole; // Files without the padding of the last record
	bytes x(b.begin(), b.begin() + static_cast<ptrdiff_t>(cut));
	bool got;
	if (text) {
		std::stringstream z(std::string(x.begin(), x.end()));
		z.seekg(static_cast<std::streamoff>(at));
		got = stdex::idrec::ignore<S, static_cast<S>(K::align)>(z);
	}
	else {
		FaultStream z;
		z.in = x; z.pos = at;
		if (r.coin()) z.read_rng = r.next() | 1;
		got = stdex::idrec::ignore<S, static_cast<S>(K::align)>(static_cast<sx::basic&>(z));
	}
	VH_CHECK(c, got == (cut == whole), "ignore-cut", "record up to %zu, data up to %zu, cut at %zu: %s", whole, data_end, cut, got ? "skipped" : "not skipped");
	// Header of a record being written
	sx::memory_file o;
	auto start = K::open(o, k);
	bytes head;
	put(head, static_cast<I>(K::id(k)));
	put(head, static_cast<S>(0));
	VH_CHECK(c, start == 0 && o.tell() == head.size() && bytes(static_cast<const uint8_t*>(o.data()), static_cast<const uint8_t*>(o.data()) + o.size()) == head, "open", "%llu bytes", (unsigned long long)o.size());
	c.sig(hash_bytes(b.data(), b.size(), cut));
}
// Standard streams that fail
template <class K> static void bad_case(Case& c)
{
	auto& r = c.rng;
	std::stringstream o;
	o << "abcdefghijklmnopq";
	bool at_open = r.coin();
	std::streamoff start = 0;
	if (at_open) { o.setstate(std::ios::badbit); start = K::open(o, r.below(3)); VH_CHECK(c, start == static_cast<std::streamoff>(-1), "open-failed", "%lld", (long long)start); }
	else {
		start = K::open(o, 0);
		o << "1";
		o.setstate(std::ios::failbit);
		auto end = K::close(o, 0, start);
		VH_CHECK(c, end == static_cast<std::streamoff>(-1), "close-failed", "%lld", (long long)end);
	}
	c.sig(mix(at_open));
}

#define KINDS(fn) \
	switch (c.rng.below(6)) { \
	case 0: fn<Kind<uint32_t, uint32_t, 2>>(c); break; \
	case 1: fn<Kind<uint32_t, uint32_t, 1>>(c); break; \
	case 2: fn<Kind<uint16_t, uint16_t, 2>>(c); break; \
	case 3: fn<Kind<uint64_t, uint64_t, 8>>(c); break; \
	case 4: fn<Kind<uint32_t, uint16_t, 4>>(c); break; \
	default: fn<Kind<uint32_t, uint32_t, 16>>(c); break; \
	}
VH_GROUP(write, 15000, 150000, 5000) { KINDS(write_case) }
VH_GROUP(read, 15000, 150000, 5000) { KINDS(read_case) }
VH_GROUP(hostile, 60000, 600000, 5000) { KINDS(hostile_case) }
VH_GROUP(faults, 20000, 200000, 2000) { KINDS(fault_case) }
VH_GROUP(parts, 20000, 200000, 5000) { KINDS(part_case) }
VH_GROUP(bad_streams, 200, 2000, 2) { KINDS(bad_case) }
VH_MAIN
