// D02: intervals, mappings, checked arithmetic, byte order. 128-bit, point-set and byte-array references.
#include "vh.hpp"
#include <stdex/interval.hpp>
#include <stdex/mapping.hpp>
#include <stdex/math.hpp>
#include <stdex/endian.hpp>

using i128 = __int128;
using u128 = unsigned __int128;

// Values around powers of two and limits, and random ones.
static uint64_t edgy(vh::Rng& r)
{
	uint64_t b = r.below(5) ? 1ull << r.below(64) : 0;
	switch (r.below(6)) {
	case 0: return r.below(10);
	case 1: return UINT64_MAX - r.below(10);
	case 2: return b + r.below(5) - 2;
	case 3: return static_cast<uint64_t>(INT64_MAX) + r.below(5) - 2;
	default: return r.next() >> r.below(64);
	}
}

VH_GROUP(checked, 20000, 1000000, 10000)
{
	auto& r = c.rng;
	for (int k = 0; k < 8; k++) {
		size_t a = edgy(r), b = r.chance(1, 3) && a ? SIZE_MAX / a + r.below(3) - 1 : r.chance(1, 3) ? SIZE_MAX - a + r.below(3) - 1 : edgy(r);
		if (r.coin()) std::swap(a, b);
		u128 p = static_cast<u128>(a) * b, s = static_cast<u128>(a) + b;
		size_t got = 0;
		bool thrown = false;
		try { got = stdex::mul(a, b); } catch (const std::invalid_argument&) { thrown = true; }
		VH_CHECK(c, thrown == (p > SIZE_MAX) && (thrown || got == p), "mul", "%zu * %zu: %s %zu", a, b, thrown ? "rejected" : "gives", got);
		thrown = false;
		try { got = stdex::add(a, b); } catch (const std::invalid_argument&) { thrown = true; }
		VH_CHECK(c, thrown == (s > SIZE_MAX) && (thrown || got == s), "add", "%zu + %zu: %s %zu", a, b, thrown ? "rejected" : "gives", got);
		uint32_t v = static_cast<uint32_t>(edgy(r));
		int bits = static_cast<int>(r.below(33));
		uint32_t want = 0;
		for (int i = 0; i < 32; i++) if (v >> i & 1) want |= 1u << ((i + bits) % 32);
		VH_CHECK(c, stdex::rol(v, bits) == want, "rol", "rol(%08x, %d) gives %08x, %08x expected", v, bits, stdex::rol(v, bits), want);
		c.sig(vh::mix(a) ^ b);
	}
}

template <class T>
static void md(vh::Case& c, T n, T k, T q, const char* name)
{
	if (!q) return;
	i128 want;
	if (std::is_signed<T>::value) want = static_cast<i128>(n) * k / q;
	else { u128 w = static_cast<u128>(n) * k / q; if (w > std::numeric_limits<T>::max()) return; want = static_cast<i128>(w); }
	if (want < std::numeric_limits<T>::min() || want > static_cast<i128>(std::numeric_limits<T>::max())) return;
	T got = stdex::muldiv(n, k, q);
	VH_CHECK(c, got == static_cast<T>(want), "muldiv", "%s: %lld * %lld / %lld gives %lld, %lld expected", name, (long long)n, (long long)k, (long long)q, (long long)got, (long long)want);
	c.sig(vh::mix(vh::mix(static_cast<uint64_t>(n)) ^ static_cast<uint64_t>(k)) ^ static_cast<uint64_t>(q));
}

VH_GROUP(muldiv, 20000, 1000000, 5000)
{
	auto& r = c.rng;
	for (int k = 0; k < 8; k++) {
		uint64_t a = edgy(r), b = edgy(r), q = r.coin() ? std::max(a, b) : edgy(r);
		if (r.chance(1, 4)) q += r.below(3) - 1;
		md<uint64_t>(c, a, b, q, "uint64_t");
		md<int64_t>(c, static_cast<int64_t>(a), static_cast<int64_t>(b), static_cast<int64_t>(q), "int64_t");
		md<uint32_t>(c, static_cast<uint32_t>(a), static_cast<uint32_t>(b), static_cast<uint32_t>(q), "uint32_t");
		md<int32_t>(c, static_cast<int32_t>(a), static_cast<int32_t>(b), static_cast<int32_t>(q), "int32_t");
		md<uint32_t>(c, static_cast<uint32_t>(a >> 32), static_cast<uint32_t>(b >> 32), static_cast<uint32_t>(q >> 32), "uint32_t");
		md<int32_t>(c, static_cast<int32_t>(a >> 32), static_cast<int32_t>(b >> 32), static_cast<int32_t>(q >> 32), "int32_t");
	}
}

template <class T>
static void intervals(vh::Case& c)
{
	auto& r = c.rng;
	using I = stdex::interval<T>;
	T lo = std::is_signed<T>::value ? static_cast<T>(-60) : 60;
	auto num = [&] { return static_cast<T>(lo + static_cast<T>(r.below(30))); };
	I none;
	VH_CHECK(c, !none && none.empty() && none.size() == 0, "interval-invalid", "default interval is not invalid");
	T s = num(), e = num();
	I a(s, e);
	if (r.chance(1, 8)) { a = I(s); e = s; }
	VH_CHECK(c, a.start == s && a.end == e, "interval-construct", "interval differs from what it was given");
	// Points
	size_t points = 0;
	for (T x = static_cast<T>(lo - 5); x < static_cast<T>(lo + 40); x++) {
		bool in = s <= x && x < e;
		points += in;
		VH_CHECK(c, a.contains(x) == in, "interval-contains", "[%lld, %lld) contains(%lld) is %d", (long long)s, (long long)e, (long long)x, a.contains(x));
	}
	VH_CHECK(c, static_cast<size_t>(a.size()) == points && a.empty() == (points == 0) && static_cast<bool>(a) == (s <= e), "interval-size", "[%lld, %lld): size %lld, empty %d, valid %d", (long long)s, (long long)e, (long long)a.size(), a.empty(), static_cast<bool>(a));
	T x = static_cast<T>(r.below(20)), s2 = num(), e2 = num();
	I b(s2, e2);
	auto is = [&](const I& i, T is, T ie, const char* what) { VH_CHECK(c, i.start == is && i.end == ie, "interval-arithmetic", "%s gives [%lld, %lld), [%lld, %lld) expected", what, (long long)i.start, (long long)i.end, (long long)is, (long long)ie); };
	is(a + x, s + x, e + x, "+ number");
	is(a - x, s - x, e - x, "- number");
	is(a + b, s + s2, e + e2, "+ interval");
	is(a - b, s - s2, e - e2, "- interval");
	I t = a; is(t += x, s + x, e + x, "+="); is(t, s + x, e + x, "+=");
	t = a; is(t -= x, s - x, e - x, "-="); is(t, s - x, e - x, "-=");
	t = a; is(++t, s + 1, e + 1, "++x"); is(t, s + 1, e + 1, "++x");
	t = a; is(t++, s, e, "x++"); is(t, s + 1, e + 1, "x++");
	t = a; is(--t, s - 1, e - 1, "--x"); is(t, s - 1, e - 1, "--x");
	t = a; is(t--, s, e, "x--"); is(t, s - 1, e - 1, "x--");
	is((a + x) - x, s, e, "there and back");
	VH_CHECK(c, (a == b) == (s == s2 && e == e2) && (a != b) == !(a == b) && a == I(s, e), "interval-equal", "equality");
	t = a; t.invalidate();
	VH_CHECK(c, !t && t.size() == 0 && t.empty(), "interval-invalid", "invalidated interval is valid");
	c.sig(vh::mix(static_cast<uint64_t>(s) * 1000 + static_cast<uint64_t>(e)) ^ vh::mix(static_cast<uint64_t>(x) * 7 + sizeof(T)));
}

VH_GROUP(interval, 20000, 400000, 5000)
{
	switch (c.index % 3) {
	case 0: intervals<int>(c); break;
	case 1: intervals<size_t>(c); break;
	default: intervals<int64_t>(c); break;
	}
}

// Mappings: lists sorted on both sides. The reference scans them from the end.
template <class T>
static void mappings(vh::Case& c)
{
	auto& r = c.rng;
	using M = stdex::mapping<T>;
	stdex::mapping_vector<T> v;
	T from = static_cast<T>(r.chance(1, 2) ? 0 : r.below(20)), to = static_cast<T>(r.chance(1, 2) ? 0 : r.below(20));
	for (size_t i = 0, n = r.size(30); i < n; i++) {
		v.push_back(M(from, to));
		from += static_cast<T>(1 + r.below(8));
		to += static_cast<T>(1 + r.below(8));
	}
	auto ref = [&](T x, bool fwd) {
		if (v.empty()) return x;
		for (size_t i = v.size(); i--;) {
			T f = fwd ? v[i].from : v[i].to, t = fwd ? v[i].to : v[i].from;
			if (f <= x) return static_cast<T>(t + (x - f));
		}
		return std::min(x, fwd ? v[0].to : v[0].from);
	};
	size_t hf = 0, ht = 0;
	if (!v.empty() && r.coin()) { hf = r.below(v.size()); ht = r.below(v.size()); }
	T top = static_cast<T>(std::max(from, to) + 10);
	bool seq = r.coin();
	for (int i = 0; i < 60; i++) {
		T x = static_cast<T>(seq ? static_cast<T>(i) : static_cast<T>(r.below(static_cast<uint64_t>(top))));
		T wf = ref(x, true), wt = ref(x, false), g;
		g = stdex::src2dst(v, x);
		VH_CHECK(c, g == wf, "src2dst", "%lld in %zu mappings gives %lld, %lld expected", (long long)x, v.size(), (long long)g, (long long)wf);
		g = stdex::dst2src(v, x);
		VH_CHECK(c, g == wt, "dst2src", "%lld in %zu mappings gives %lld, %lld expected", (long long)x, v.size(), (long long)g, (long long)wt);
		if (!v.empty() && r.chance(1, 10)) hf = r.below(v.size());
		size_t h0 = hf;
		g = stdex::src2dst(v, x, hf);
		VH_CHECK(c, g == wf && (v.empty() || hf < v.size()), "src2dst-hint", "%lld in %zu mappings with hint %zu gives %lld, %lld expected", (long long)x, v.size(), h0, (long long)g, (long long)wf);
		if (!v.empty() && r.chance(1, 10)) ht = r.below(v.size());
		h0 = ht;
		g = stdex::dst2src(v, x, ht);
		VH_CHECK(c, g == wt && (v.empty() || ht < v.size()), "dst2src-hint", "%lld in %zu mappings with hint %zu gives %lld, %lld expected", (long long)x, v.size(), h0, (long long)g, (long long)wt);
		if (c.failed) return;
	}
	for (auto& m : v) {
		VH_CHECK(c, stdex::src2dst(v, m.from) == m.to && stdex::dst2src(v, m.to) == m.from, "mapping-points", "a listed point is not translated to its counterpart");
		M i = m;
		i.invert();
		VH_CHECK(c, i.from == m.to && i.to == m.from && (i == m) == (m.from == m.to) && i != M(m.from + 1, m.to + 3 + m.from), "mapping-invert", "inverted mapping");
		i.invert();
		VH_CHECK(c, i == m && !(i != m), "mapping-invert", "twice inverted mapping");
		M s = m + M(3, 5);
		VH_CHECK(c, s.from == m.from + 3 && s.to == m.to + 5, "mapping-add", "sum of mappings");
	}
	VH_CHECK(c, M() == M(0, 0) && M(7) == M(7, 7), "mapping-construct", "constructors");
	if (v.size() > 1) c.sig(vh::hash_bytes(v.data(), v.size() * sizeof(M)));
}

VH_GROUP(mapping, 10000, 300000, 4000)
{
	switch (c.index % 3) {
	case 0: mappings<size_t>(c); break;
	case 1: mappings<int>(c); break;
	default: mappings<int64_t>(c); break;
	}
}

template <class T>
static void order(vh::Case& c, uint64_t bits, const char* name)
{
	T v;
	memcpy(&v, &bits, sizeof v);
	uint8_t b[sizeof(T)], w[sizeof(T)];
	memcpy(b, &v, sizeof v);
	for (size_t i = 0; i < sizeof v; i++) w[i] = b[sizeof v - 1 - i];
	auto s = stdex::byteswap(v);
	static_assert(sizeof(s) == sizeof(T), "size");
	VH_CHECK(c, memcmp(&s, w, sizeof w) == 0, "byteswap", "%s: bytes are not reversed", name);
	auto t = stdex::byteswap(s);
	VH_CHECK(c, memcmp(&t, b, sizeof b) == 0, "byteswap-twice", "%s: not an involution", name);
	T p = v;
	stdex::byteswap(&p);
	VH_CHECK(c, memcmp(&p, w, sizeof w) == 0, "byteswap-pointer", "%s: bytes in place are not reversed", name);
	auto le = HE2LE(v);
	auto be = HE2BE(v);
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
	VH_CHECK(c, memcmp(&le, b, sizeof b) == 0 && memcmp(&be, w, sizeof w) == 0, "byte-order", "%s: little- or big-endian layout", name);
#else
	VH_CHECK(c, memcmp(&le, w, sizeof b) == 0 && memcmp(&be, b, sizeof w) == 0, "byte-order", "%s: little- or big-endian layout", name);
#endif
	auto l2 = LE2HE(le);
	auto b2 = BE2HE(be);
	VH_CHECK(c, memcmp(&l2, b, sizeof b) == 0 && memcmp(&b2, b, sizeof b) == 0, "byte-order", "%s: back to the order of the host", name);
}

VH_GROUP(endian, 20000, 400000, 10000)
{
	uint64_t v = edgy(c.rng);
	if (c.rng.coin()) v = c.rng.next();
	order<uint8_t>(c, v, "uint8_t"); order<uint16_t>(c, v, "uint16_t"); order<uint32_t>(c, v, "uint32_t"); order<uint64_t>(c, v, "uint64_t");
	order<int8_t>(c, v, "int8_t"); order<int16_t>(c, v, "int16_t"); order<int32_t>(c, v, "int32_t"); order<int64_t>(c, v, "int64_t");
	order<char>(c, v, "char"); order<float>(c, v, "float"); order<double>(c, v, "double");
	c.sig(v);
}

VH_MAIN
