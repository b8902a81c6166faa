// S05: values written to a stream read back equal, in the documented layout; truncated and hostile input fails safely.
#include "fstreams.hpp"
#include <new>
using namespace vh;

static thread_local size_t g_largest, g_total; // largest single request and sum of requests since reset
void* operator new(size_t n)
{
	g_largest = std::max(g_largest, n);
	g_total += n;
	if (n > (1u << 30)) throw std::bad_alloc();
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Value
{
	virtual ~Value() {}
	virtual void write(sx::basic& s, Rng& r) const = 0;
	virtual void layout(std::vector<uint8_t>& v) const = 0;
	virtual bool read_equal(sx::basic& s) const = 0;      // reads; true if equal
	virtual bool read_defined(sx::basic& s) const = 0;    // reads from a stream that is not ok; true if the target is zero / empty
	virtual bool read_cut(sx::basic& s, size_t avail) const = 0; // reads where only avail bytes of the value are there; true if the target holds nothing else than what is there
	virtual std::string name() const = 0;
	// The same through memory_file's own operators, that hide those of the stream.
	virtual void write_own(sx::memory_file& s) const { (void)s; abort(); }
	virtual bool read_equal_own(sx::memory_file& s) const { (void)s; abort(); }
	virtual bool read_defined_own(sx::memory_file& s) const { (void)s; abort(); }
	virtual bool read_cut_own(sx::memory_file& s, size_t avail) const { (void)s; (void)avail; abort(); }
};

template <class T> static void put(std::vector<uint8_t>& v, T x)
{
	typename std::conditional<sizeof(T) == 8, uint64_t, typename std::conditional<sizeof(T) == 4, uint32_t, typename std::conditional<sizeof(T) == 2, uint16_t, uint8_t>::type>::type>::type u;
	memcpy(&u, &x, sizeof(T));
	for (size_t i = 0; i < sizeof(T); i++) v.push_back(static_cast<uint8_t>(static_cast<uint64_t>(u) >> (8 * i)));
}
template <class T> static bool same(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }
template <class T> static bool same(const std::basic_string<T>& a, const std::basic_string<T>& b) { return a == b; }
template <class T> static void layout_of(std::vector<uint8_t>& v, const T& x) { put(v, x); }
template <class T> static void layout_of(std::vector<uint8_t>& v, const std::basic_string<T>& x)
{
	put(v, static_cast<uint32_t>(x.size()));
	for (auto ch : x) put(v, ch);
}
template <class T> static void layout_of(std::vector<uint8_t>& v, const std::vector<T>& x)
{
	put(v, static_cast<uint32_t>(x.size()));
	for (auto& e : x) layout_of(v, e);
}
template <class T> static T random_value(Rng& r, T*)
{
	T v;
	uint64_t raw = r.next();
	if (r.chance(1, 4)) raw = r.one<uint64_t>({ 0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, UINT64_MAX,
		0x7ff0000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0x8000000000000000, 0x7f800000, 0x7fc00001, 0x7f800001 });
	memcpy(&v, &raw, sizeof(T));
	return v;
}
template <class T> static std::basic_string<T> random_value(Rng& r, std::basic_string<T>*)
{
	std::basic_string<T> s;
	size_t n = r.chance(1, 40) ? r.one<size_t>({ 1023, 1024, 1025, 2048, 2049, 5000 }) : r.size(60);
	for (; n; n--) s += static_cast<T>(r.chance(1, 10) ? 0 : r.next() & (sizeof(T) == 4 ? 0x10ffff : ~0ull));
	return s;
}
template <class T> static std::vector<T> random_value(Rng& r, std::vector<T>*)
{
	std::vector<T> v(r.size(20));
	for (auto& x : v) x = random_value(r, static_cast<T*>(nullptr));
	return v;
}

template <class T> struct Plain : Value
{
	T v;
	std::string nm;
	Plain(Rng& r, const char* n) : v(random_value(r, static_cast<T*>(nullptr))), nm(n) {}
	template <class S> bool equal(S& s) const { T x; memset(&x, 0x5a, sizeof(T)); s >> x; return same(x, v); }
	template <class S> bool defined(S& s) const { T x, z; memset(&x, 0x5a, sizeof(T)); memset(&z, 0, sizeof(T)); s >> x; return same(x, z); }
	void write(sx::basic& s, Rng&) const { s << v; }
	void layout(std::vector<uint8_t>& o) const { layout_of(o, v); }
	bool read_equal(sx::basic& s) const { return equal(s); }
	bool read_defined(sx::basic& s) const { return defined(s); }
	bool read_cut(sx::basic& s, size_t) const { return defined(s); }
	void write_own(sx::memory_file& s) const { s << v; }
	bool read_equal_own(sx::memory_file& s) const { return equal(s); }
	bool read_defined_own(sx::memory_file& s) const { return defined(s); }
	bool read_cut_own(sx::memory_file& s, size_t) const { return defined(s); }
	std::string name() const { return nm; }
};
template <class T> struct Str : Value
{
	std::basic_string<T> v;
	bool cstr;
	std::string nm;
	Str(Rng& r, const char* n) : v(random_value(r, static_cast<std::basic_string<T>*>(nullptr))), cstr(r.coin()), nm(n)
	{
		if (cstr) { auto z = v.find(T(0)); if (z != v.npos) v.resize(z); }
	}
	template <class S> void put_to(S& s) const
	{
		if (!cstr) { s << v; return; }
		std::vector<T> z(v.begin(), v.end());
		z.push_back(0);
		Exact<T> e(z);
		s << static_cast<const T*>(e.data());
	}
	template <class S> bool equal(S& s) const { std::basic_string<T> x(3, T('x')); s >> x; return x == v; }
	template <class S> bool defined(S& s) const { std::basic_string<T> x(3, T('x')); s >> x; return x.empty(); }
	template <class S> bool cut(S& s, size_t avail) const { std::basic_string<T> x(3, T('x')); s >> x; return x.size() <= (avail < 4 ? 0 : (avail - 4) / sizeof(T)) && x == v.substr(0, x.size()); }
	void write(sx::basic& s, Rng&) const { put_to(s); }
	void layout(std::vector<uint8_t>& o) const { layout_of(o, v); }
	bool read_equal(sx::basic& s) const { return equal(s); }
	bool read_defined(sx::basic& s) const { return defined(s); }
	bool read_cut(sx::basic& s, size_t avail) const { return cut(s, avail); }
	void write_own(sx::memory_file& s) const { put_to(s); }
	bool read_equal_own(sx::memory_file& s) const { return equal(s); }
	bool read_defined_own(sx::memory_file& s) const { return defined(s); }
	bool read_cut_own(sx::memory_file& s, size_t avail) const { return cut(s, avail); }
	std::string name() const { return nm + fmt("[%zu]", v.size()); }
};
template <class T> struct Vec : Value
{
	std::vector<T> v;
	std::string nm;
	Vec(Rng& r, const char* n) : v(random_value(r, static_cast<std::vector<T>*>(nullptr))), nm(n) {}
	void write(sx::basic& s, Rng&) const { s << v; }
	void layout(std::vector<uint8_t>& o) const { layout_of(o, v); }
	bool read_equal(sx::basic& s) const
	{
		std::vector<T> x(2);
		s >> x;
		if (x.size() != v.size()) return false;
		for (size_t i = 0; i < x.size(); i++) if (!same(x[i], v[i])) return false;
		return true;
	}
	bool read_defined(sx::basic& s) const { std::vector<T> x(2); s >> x; return x.empty(); }
	bool read_cut(sx::basic& s, size_t avail) const
	{
		std::vector<T> x(2);
		s >> x;
		if (x.size() > v.size()) return false;
		std::vector<uint8_t> d;
		for (size_t i = 0; i < x.size(); i++) {
			layout_of(d, v[i]);
			// Only elements that are there whole.
			if (d.size() > (avail < 4 ? 0 : avail - 4)) return false;
			if (!same(x[i], v[i])) return false;
		}
		return true;
	}
	std::string name() const { return nm + fmt("[%zu]", v.size()); }
};
template <class S> struct SetOf : Value
{
	S v;
	std::string nm;
	SetOf(Rng& r, const char* n) : nm(n)
	{
		for (size_t k = r.size(20); k; k--) v.insert(random_value(r, static_cast<typename S::value_type*>(nullptr)));
		if (!v.empty() && r.coin()) v.insert(*v.begin());
	}
	void write(sx::basic& s, Rng&) const { s << v; }
	void layout(std::vector<uint8_t>& o) const { put(o, static_cast<uint32_t>(v.size())); for (auto& e : v) layout_of(o, e); }
	bool read_equal(sx::basic& s) const { S x; x.insert(typename S::value_type()); s >> x; return x == v; }
	bool read_defined(sx::basic& s) const { S x; x.insert(typename S::value_type()); s >> x; return x.empty(); }
	bool read_cut(sx::basic& s, size_t avail) const
	{
		S x;
		s >> x;
		std::vector<uint8_t> d;
		size_t k = 0; // elements that are there whole
		for (auto& e : v) {
			layout_of(d, e);
			if (d.size() + 4 > avail) break;
			k++;
		}
		size_t strange = 0;
		for (auto& e : x)
			if (v.find(e) == v.end() || x.count(e) > v.count(e)) strange++;
		return x.size() <= k && !strange;
	}
	std::string name() const { return nm + fmt("[%zu]", v.size()); }
};

static std::unique_ptr<Value> random_typed(Rng& r, unsigned kinds = 26)
{
	switch (r.below(kinds)) {
#define V(n, T) case n: return std::make_unique<Plain<T>>(r, #T)
		V(0, int8_t); V(1, int16_t); V(2, int32_t); V(3, int64_t); V(4, uint8_t); V(5, uint16_t); V(6, uint32_t); V(7, uint64_t); V(8, float); V(9, double); V(10, char);
#undef V
	case 11: case 12: return std::make_unique<Str<char>>(r, "char*");
	case 13: return std::make_unique<Str<wchar_t>>(r, "wchar_t*");
	case 14: return std::make_unique<Str<char16_t>>(r, "char16_t*");
	case 15: return std::make_unique<Str<char32_t>>(r, "char32_t*");
	case 16: return std::make_unique<Vec<uint8_t>>(r, "vector<uint8_t>");
	case 17: return std::make_unique<Vec<int32_t>>(r, "vector<int32_t>");
	case 18: return std::make_unique<Vec<double>>(r, "vector<double>");
	case 19: return std::make_unique<Vec<std::string>>(r, "vector<string>");
	case 20: return std::make_unique<Vec<std::wstring>>(r, "vector<wstring>");
	case 21: return std::make_unique<SetOf<std::set<int16_t>>>(r, "set<int16_t>");
	case 22: return std::make_unique<SetOf<std::set<std::string>>>(r, "set<string>");
	case 23: return std::make_unique<SetOf<std::multiset<uint64_t>>>(r, "multiset<uint64_t>");
	case 24: return std::make_unique<SetOf<std::multiset<std::string>>>(r, "multiset<string>");
	default: return std::make_unique<Vec<uint64_t>>(r, "vector<uint64_t>");
	}
}

VH_GROUP(roundtrip, 20000, 400000, 10000)
{
	auto& r = c.rng;
	std::vector<std::unique_ptr<Value>> vals;
	std::vector<uint8_t> want;
	std::vector<size_t> ends;
	std::string names;
	for (size_t n = 1 + r.below(8); n; n--) {
		vals.push_back(random_typed(r));
		vals.back()->layout(want);
		ends.push_back(want.size());
		names += " " + vals.back()->name();
	}
	// Writing gives exactly the layout, on every kind of stream.
	FaultStream sink;
	sx::memory_file mem;
	sx::fifo fifo;
	FaultStream under;
	{
		sx::buffer buf(under, 7, static_cast<size_t>(1 + r.below(64)));
		std::vector<sx::basic*> outs = { &sink, &mem, &fifo, &buf };
		for (auto* o : outs)
			for (auto& v : vals) {
				v->write(*o, r);
				if (!o->ok()) c.fail("write-state", "state %s after writing%s", sname(o->state()), names.c_str());
			}
		buf.flush();
	}
	auto check = [&](const std::vector<uint8_t>& got, const char* where) {
		if (got != want) {
			size_t i = 0;
			while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
			c.fail("layout", "%s:%s: %zu bytes, want %zu; first difference at %zu", where, names.c_str(), got.size(), want.size(), i);
		}
	};
	check(sink.out, "stream");
	check(under.out, "buffer");
	check(std::vector<uint8_t>(static_cast<const uint8_t*>(mem.data()), static_cast<const uint8_t*>(mem.data()) + static_cast<size_t>(mem.size())), "memory_file");
	if (fifo.size() != want.size()) c.fail("layout", "fifo holds %zu bytes, want %zu", fifo.size(), want.size());
	// Reading gives the values and stops right behind each.
	mem.seekbeg(0);
	FaultStream src;
	src.in = want;
	src.read_rng = r.coin() ? r.next() | 1 : 0;
	for (int k = 0; k < 3; k++) {
		sx::basic& in = k == 0 ? static_cast<sx::basic&>(mem) : k == 1 ? static_cast<sx::basic&>(src) : static_cast<sx::basic&>(fifo);
		for (size_t i = 0; i < vals.size(); i++) {
			if (!vals[i]->read_equal(in)) { c.fail("value", "value %zu (%s) reads back different (stream %d)", i, vals[i]->name().c_str(), k); break; }
			if (!in.ok()) { c.fail("read-state", "state %s after reading value %zu (%s)", sname(in.state()), i, vals[i]->name().c_str()); break; }
			size_t at = k == 0 ? static_cast<size_t>(mem.tell()) : k == 1 ? src.pos : want.size() - fifo.size();
			if (at != ends[i]) { c.fail("position", "after value %zu (%s) the stream is at %zu, want %zu", i, vals[i]->name().c_str(), at, ends[i]); break; }
		}
	}
	// Every truncation: values in front are intact, the cut one fails, later ones stay zero or empty.
	for (unsigned t = 0; t < 4 && !want.empty(); t++) {
		size_t cut = static_cast<size_t>(r.below(want.size()));
		FaultStream part;
		sx::memory_file mpart;
		part.in.assign(want.begin(), want.begin() + cut);
		if (r.chance(1, 3)) { part.in = want; part.fail_read_at = cut; part.transient = r.coin(); }
		part.read_rng = r.coin() ? r.next() | 1 : 0;
		if (cut) mpart.write(want.data(), cut);
		mpart.seekbeg(0);
		for (int k = 0; k < 2; k++) {
			sx::basic& in = k ? static_cast<sx::basic&>(mpart) : static_cast<sx::basic&>(part);
			size_t i = 0;
			for (; i < vals.size() && ends[i] <= cut; i++)
				if (!vals[i]->read_equal(in) || !in.ok()) { c.fail("truncated-earlier", "value %zu (%s) before the cut at %zu of %zu differs", i, vals[i]->name().c_str(), cut, want.size()); break; }
			if (i < vals.size()) {
				if (!vals[i]->read_cut(in, cut - (i ? ends[i - 1] : 0))) c.fail("truncated-cut", "value %zu (%s) cut at %zu of %zu..%zu is neither empty nor what is there", i, vals[i]->name().c_str(), cut, i ? ends[i - 1] : 0, ends[i]);
				if (in.ok()) c.fail("truncated-ok", "value %zu (%s) cut at %zu of %zu..%zu read without failure (stream %d)", i, vals[i]->name().c_str(), cut, i ? ends[i - 1] : 0, ends[i], k);
			}
			for (i++; i < vals.size(); i++) {
				if (!vals[i]->read_defined(in)) c.fail("truncated-later", "value %zu (%s) behind the failure is neither zero nor empty", i, vals[i]->name().c_str());
				if (in.ok()) c.fail("truncated-later-ok", "state became ok reading value %zu behind a failure", i);
			}
			c.count("truncations");
		}
	}
	c.count("values", vals.size());
	c.sig(hash_bytes(want.data(), want.size(), hash_str(names)));
	c.sample(names);
}

// Write faults are reported and nothing is written behind them.
VH_GROUP(write_faults, 10000, 100000, 3000)
{
	auto& r = c.rng;
	std::vector<std::unique_ptr<Value>> vals;
	std::vector<uint8_t> want;
	for (size_t n = 1 + r.below(6); n; n--) { vals.push_back(random_typed(r)); vals.back()->layout(want); }
	if (want.empty()) return;
	FaultStream s;
	const size_t brk = s.fail_write_at = static_cast<size_t>(r.below(want.size()));
	s.transient = r.coin();
	for (auto& v : vals) v->write(s, r);
	if (s.ok()) c.fail("write-fault-ok", "sink failed after %zu of %zu bytes, state is ok", brk, want.size());
	if (s.out.size() != brk || memcmp(s.out.data(), want.data(), s.out.size())) c.fail("write-fault-data", "bytes in front of the fault differ");
	c.sig(hash_bytes(want.data(), want.size(), brk));
}

// Hostile bytes: any reader ends, and allocates in proportion to what is there.
VH_GROUP(hostile, 40000, 400000, 10000)
{
	auto& r = c.rng;
	std::vector<uint8_t> in;
	std::vector<std::unique_ptr<Value>> vals;
	for (size_t n = 1 + r.below(4); n; n--) {
		if (r.coin()) put(in, static_cast<uint32_t>(r.one<uint64_t>({ 0xffffffff, 0x80000000, 0x7fffffff, 0x40000000, 0x10000000, 0x3fffffff, 1000000, 70000, 3, r.next() & 0xffffffff })));
		auto b = r.bytes(r.size(60));
		in.insert(in.end(), b.begin(), b.end());
		vals.push_back(random_typed(r));
	}
	FaultStream src;
	src.in = in;
	src.read_rng = r.coin() ? r.next() | 1 : 0;
	sx::memory_file mem(malloc(in.size() + !in.size()), in.size(), true);
	if (!in.empty()) memcpy(const_cast<void*>(static_cast<const void*>(mem.data())), in.data(), in.size());
	size_t limit = (1u << 20) + 64 * in.size();
	for (int k = 0; k < 2; k++) {
		sx::basic& s = k ? static_cast<sx::basic&>(mem) : static_cast<sx::basic&>(src);
		g_largest = g_total = 0;
		try {
			for (auto& v : vals) v->read_equal(s);
		}
		catch (const std::exception& e) { c.fail("hostile-throw", "reading threw %s", e.what()); }
		if (g_largest > limit || g_total > 4 * limit) c.fail("hostile-alloc", "reading %zu bytes allocated %zu at once, %zu in all", in.size(), g_largest, g_total);
	}
	c.sig(hash_bytes(in.data(), in.size()));
}

// Memory files have operators and string functions of their own: same layout, same values, same end.
VH_GROUP(memory_own, 12000, 200000, 5000)
{
	auto& r = c.rng;
	std::vector<std::unique_ptr<Value>> vals;
	std::vector<uint8_t> want;
	std::vector<size_t> ends;
	std::string names;
	// Something in front, something behind that gets overwritten, or a gap.
	size_t front = r.coin() ? 0 : r.size(40);
	sx::memory_file mem;
	std::vector<uint8_t> old = r.bytes(r.coin() ? 0 : r.size(200));
	if (!old.empty()) mem.write(old.data(), old.size());
	want.assign(old.begin(), old.begin() + std::min(old.size(), front));
	want.resize(front, 0);
	mem.seekbeg(static_cast<sx::foff_t>(front));
	for (size_t n = 1 + r.below(8); n; n--) {
		vals.push_back(random_typed(r, 16));
		vals.back()->layout(want);
		ends.push_back(want.size());
		names += " " + vals.back()->name();
		if (r.coin()) vals.back()->write_own(mem); else vals.back()->write(mem, r);
		if (!mem.ok() || mem.tell() != want.size()) c.fail("own-write", "state %s, position %llu, want %zu after writing%s", sname(mem.state()), (unsigned long long)mem.tell(), want.size(), names.c_str());
	}
	size_t written = want.size();
	if (written < old.size()) want.insert(want.end(), old.begin() + written, old.end());
	std::vector<uint8_t> got(static_cast<const uint8_t*>(mem.data()), static_cast<const uint8_t*>(mem.data()) + static_cast<size_t>(mem.size()));
	if (got != want) {
		size_t i = 0;
		while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
		c.fail("own-layout", "%s (at %zu over %zu): %zu bytes, want %zu; first difference at %zu", names.c_str(), front, old.size(), got.size(), want.size(), i);
		return;
	}
	mem.seekbeg(static_cast<sx::foff_t>(front));
	for (size_t i = 0; i < vals.size(); i++) {
		bool own = r.chance(3, 4);
		if (!(own ? vals[i]->read_equal_own(mem) : vals[i]->read_equal(mem))) { c.fail("own-value", "value %zu (%s) reads back different", i, vals[i]->name().c_str()); break; }
		if (!mem.ok() || mem.tell() != ends[i]) { c.fail("own-position", "after value %zu (%s) state %s at %llu, want %zu", i, vals[i]->name().c_str(), sname(mem.state()), (unsigned long long)mem.tell(), ends[i]); break; }
	}
	for (unsigned t = 0; t < 4 && written > front; t++) {
		size_t cut = front + static_cast<size_t>(r.below(written - front));
		// Exactly that much memory: reading more is seen.
		void* p = malloc(cut ? cut : 1);
		memcpy(p, want.data(), cut);
		sx::memory_file part(p, cut, true);
		part.seekbeg(static_cast<sx::foff_t>(front));
		size_t i = 0;
		for (; i < vals.size() && ends[i] <= cut; i++)
			if (!vals[i]->read_equal_own(part) || !part.ok()) { c.fail("own-truncated-earlier", "value %zu (%s) before the cut at %zu of %zu differs", i, vals[i]->name().c_str(), cut, written); break; }
		if (i < vals.size()) {
			if (!vals[i]->read_cut_own(part, cut - (i ? ends[i - 1] : front))) c.fail("own-truncated-cut", "value %zu (%s) cut at %zu of %zu..%zu is neither empty nor what is there", i, vals[i]->name().c_str(), cut, i ? ends[i - 1] : front, ends[i]);
			if (part.ok()) c.fail("own-truncated-ok", "value %zu (%s) cut at %zu read without failure", i, vals[i]->name().c_str(), cut);
		}
		for (i++; i < vals.size(); i++) {
			auto at = part.tell();
			if (!vals[i]->read_defined_own(part)) c.fail("own-truncated-later", "value %zu (%s) behind the failure is neither zero nor empty", i, vals[i]->name().c_str());
			vals[i]->write_own(part); // skipped as well
			if (part.ok() || part.tell() != at || part.size() != cut) c.fail("own-truncated-later-ok", "value %zu behind a failure was processed", i);
		}
		c.count("truncations");
	}
	// Past the end nothing is read.
	mem.seekbeg(static_cast<sx::foff_t>(want.size() + (r.coin() ? 0 : r.below(1000))));
	if (!vals[0]->read_defined_own(mem) || mem.ok()) c.fail("own-beyond", "value (%s) read beyond the end: %s", vals[0]->name().c_str(), sname(mem.state()));
	c.count("values", vals.size());
	c.sig(hash_bytes(want.data(), want.size(), hash_str(names)));
	c.sample(names);
}

// Hostile lengths read by the operators of memory_file.
VH_GROUP(memory_own_hostile, 20000, 200000, 5000)
{
	auto& r = c.rng;
	std::vector<uint8_t> in;
	std::vector<std::unique_ptr<Value>> vals;
	for (size_t n = 1 + r.below(4); n; n--) {
		if (r.coin()) put(in, static_cast<uint32_t>(r.one<uint64_t>({ 0xffffffff, 0x80000000, 0x7fffffff, 0x40000000, 0x10000000, 0x3fffffff, 1000000, 70000, 3, r.next() & 0xffffffff })));
		auto b = r.bytes(r.size(60));
		in.insert(in.end(), b.begin(), b.end());
		vals.push_back(random_typed(r, 16));
	}
	void* p = malloc(in.size() ? in.size() : 1);
	memcpy(p, in.data(), in.size());
	sx::memory_file mem(p, in.size(), true);
	g_largest = g_total = 0;
	try {
		for (auto& v : vals) v->read_equal_own(mem);
	}
	catch (const std::exception& e) { c.fail("hostile-throw", "reading threw %s", e.what()); }
	size_t limit = (1u << 20) + 64 * in.size();
	if (g_largest > limit || g_total > 4 * limit) c.fail("hostile-alloc", "reading %zu bytes allocated %zu at once, %zu in all", in.size(), g_largest, g_total);
	c.sig(hash_bytes(in.data(), in.size()));
}

VH_MAIN
