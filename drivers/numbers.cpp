// T02: text to numbers against exact arithmetic and the C library.
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/string.hpp>

using namespace vh;
using big = unsigned __int128;

template <class T> struct Text
{
	std::basic_string<T> s;
	std::unique_ptr<Exact<T>> buf;
	size_t count;
	Text(Rng& r, const std::string& v, size_t odd = SIZE_MAX, T with = 0)
	{
		for (char ch : v) s += static_cast<T>(ch);
		if (odd < s.size()) s[odd] = with;
		auto p = s;
		switch (r.below(3)) {
		case 0: p += T(0); count = r.coin() ? SIZE_MAX : p.size() + r.below(9); break;
		case 1: p += T(0); p += T('7'); count = p.size(); break;
		default: count = p.size();
		}
		buf.reset(new Exact<T>(p));
	}
	const T* p() { return buf->data(); }
};

static int dig(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99; }

struct ref_t { bool has, neg, huge; big mag; size_t end; bool loose; };
static ref_t reference(const std::string& s, int radix)
{
	ref_t x{ false, false, false, 0, 0, false };
	size_t i = 0, n = s.size();
	while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
	if (i < n && (s[i] == '+' || s[i] == '-')) x.neg = s[i++] == '-';
	if ((radix == 16 || radix == 0) && i + 1 < n && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) {
		radix = 16;
		i += 2;
		if (i >= n || dig(s[i]) >= 16) { x.loose = true; return x; } // Prefix without digits: value is 0, whether the prefix is taken is unspecified
	}
	if (!radix) radix = i < n && s[i] == '0' ? 8 : 10;
	for (; i < n && dig(s[i]) < radix; i++) {
		x.has = true;
		if (x.mag >> 100) x.huge = true;
		else x.mag = x.mag * radix + dig(s[i]);
	}
	x.end = i;
	return x;
}
static std::string to_radix(big v, int radix, bool upper)
{
	std::string s;
	do { int d = static_cast<int>(v % radix); s += static_cast<char>(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= radix; } while (v);
	std::reverse(s.begin(), s.end());
	return s;
}

static std::string number(Rng& r, int radix)
{
	std::string s;
	if (r.chance(1, 4)) for (size_t n = r.below(4); n--;) s += " \t\n\r\v\f"[r.below(6)];
	switch (r.below(5)) { case 0: s += '-'; break; case 1: s += '+'; break; default: break; }
	int rx = radix ? radix : r.one({ 8, 10, 16 });
	if ((radix == 16 && r.coin()) || (radix == 0 && rx == 16)) s += r.coin() ? "0x" : "0X";
	else if (!radix && rx == 8) s += '0';
	if (r.chance(1, 5)) s += std::string(r.below(30), '0');
	big v;
	switch (r.below(6)) {
	case 0: v = r.below(300); break;
	case 1: case 2: { unsigned bits = r.one({ 7u, 8u, 15u, 16u, 31u, 32u, 63u, 64u }); v = (static_cast<big>(1) << bits) + r.below(5) - 2; break; }
	case 3: v = r.next() >> r.below(64); break;
	case 4: v = (static_cast<big>(r.next()) << 64 | r.next()) >> r.below(100); break;
	default: { unsigned bits = r.one({ 8u, 16u, 32u, 64u }); v = (static_cast<big>(1) << bits) / rx * (r.coin() ? 1 : rx) + r.below(2 * rx + 2) - rx; break; }
	}
	if (v >> 127) v = r.below(100);
	if (r.coin() || v) {
		bool u = r.coin();
		s += to_radix(v, rx, u);
	}
	switch (r.below(6)) {
	case 0: s += static_cast<char>(rx < 10 ? '0' + rx : rx < 36 ? (r.coin() ? 'a' : 'A') + rx - 10 : '-'); break; // First digit out of range
	case 1: s += " -.,;xz_@`[{/:\x80\xff"[r.below(16)]; s += "12"; break;
	default: break;
	}
	return s;
}
static std::string junk(Rng& r)
{
	std::string s;
	for (size_t n = r.below(8); n--;) s += " +-0xX19afzZ.\t"[r.below(14)];
	return s;
}

template <class B> static B want_signed(const ref_t& x)
{
	using L = std::numeric_limits<B>;
	big lim = static_cast<big>(L::max()) + (x.neg ? 1 : 0);
	if (x.huge || x.mag > lim) return x.neg ? L::min() : L::max();
	return x.neg ? static_cast<B>(-static_cast<__int128>(x.mag)) : static_cast<B>(x.mag);
}
template <class B> static B want_unsigned(const ref_t& x)
{
	if (x.huge || x.mag > std::numeric_limits<B>::max()) return x.neg ? 0 : std::numeric_limits<B>::max();
	return x.neg ? static_cast<B>(0 - static_cast<B>(x.mag)) : static_cast<B>(x.mag);
}

template <class T> static void ints(Case& c)
{
	auto& r = c.rng;
	int radix = r.chance(1, 3) ? 10 : r.chance(1, 4) ? 0 : r.chance(1, 4) ? 16 : static_cast<int>(2 + r.below(35));
	std::string s = r.chance(1, 8) ? junk(r) : number(r, radix);
	// Wide characters that look like digits and letters in the low byte only.
	size_t odd = SIZE_MAX;
	T with = 0;
	if (sizeof(T) > 1 && !s.empty() && r.chance(1, 4)) {
		odd = r.below(s.size());
		if (dig(s[odd]) < 36) {
			with = static_cast<T>(static_cast<unsigned char>(s[odd]) + 0x100 * (sizeof(T) > 2 && r.coin() ? 0x100u : r.one({ 1u, 6u, 0xffu })));
			s[odd] = 1;
		}
		else odd = SIZE_MAX;
	}
	Text<T> t(r, s, odd, with);
	ref_t x = reference(s, radix);
	auto one = [&](const char* key, auto got, auto want, size_t end) {
		if (x.loose || !x.has) VH_CHECK(c, got == 0 && end <= s.size(), key, "%s in radix %d without a number gives %lld, end %zu", show(s).c_str(), radix, static_cast<long long>(got), end);
		else VH_CHECK(c, got == want && end == x.end, key, "%s in radix %d gives %lld, %lld expected; end %zu, %zu expected", show(s).c_str(), radix, static_cast<long long>(got), static_cast<long long>(want), end, x.end);
	};
	size_t e;
#define ONE(fn, want) do { e = stdex::npos; auto _v = stdex::fn(t.p(), t.count, &e, radix); one(#fn, _v, want, e); VH_CHECK(c, stdex::fn(t.p(), t.count, nullptr, radix) == _v, #fn "-no-end", "%s", show(s).c_str()); } while (0)
	ONE(strto8, want_signed<int8_t>(x));
	ONE(strto16, want_signed<int16_t>(x));
	ONE(strto32, want_signed<int32_t>(x));
	ONE(strto64, want_signed<int64_t>(x));
	ONE(strtoi, want_signed<ptrdiff_t>(x));
	ONE(strtou8, want_unsigned<uint8_t>(x));
	ONE(strtou16, want_unsigned<uint16_t>(x));
	ONE(strtou32, want_unsigned<uint32_t>(x));
	ONE(strtou64, want_unsigned<uint64_t>(x));
	ONE(strtoui, want_unsigned<size_t>(x));
	// Flags of the base function
	auto flags = [&](auto b, const char* key) {
		using B = decltype(b);
		uint8_t f = 0xff;
		B v = stdex::strtoint<T, B>(t.p(), t.count, &e, radix, f);
		if (x.loose || !x.has) return;
		bool over = x.huge || x.mag > std::numeric_limits<B>::max();
		VH_CHECK(c, !!(f & 1) == x.neg && !!(f & 2) == over && (over || v == static_cast<B>(x.mag)), key, "%s in radix %d: %llu, flags %x", show(s).c_str(), radix, static_cast<unsigned long long>(v), f);
	};
	flags(uint8_t(), "flags8");
	flags(uint16_t(), "flags16");
	flags(uint32_t(), "flags32");
	flags(uint64_t(), "flags64");
	// Array
	T arr[12];
	size_t n = std::min<size_t>(12, s.size());
	std::copy(t.s.begin(), t.s.begin() + n, arr);
	if (n < 12) arr[n] = 0, std::fill(arr + n + 1, arr + 12, T('1'));
	x = reference(s.substr(0, n), radix);
	if (x.has && !x.loose) {
		VH_CHECK(c, stdex::strto32(arr, &e, radix) == want_signed<int32_t>(x) && e == x.end, "strto32-array", "%s", show(s).c_str());
		VH_CHECK(c, stdex::strtou64(arr, &e, radix) == want_unsigned<uint64_t>(x) && e == x.end, "strtou64-array", "%s", show(s).c_str());
		VH_CHECK(c, stdex::strtou8(arr, &e, radix) == want_unsigned<uint8_t>(x) && e == x.end, "strtou8-array", "%s", show(s).c_str());
		VH_CHECK(c, stdex::strto16(arr, &e, radix) == want_signed<int16_t>(x) && e == x.end, "strto16-array", "%s", show(s).c_str());
		c.sig(hash_str(s, radix));
	}
}
VH_GROUP(integers, 150000, 1500000, 20000)
{
	switch (c.index % 3) {
	case 0: ints<char>(c); break;
	case 1: ints<wchar_t>(c); break;
	default: ints<char16_t>(c);
	}
}

VH_GROUP(floating, 60000, 600000, 8000)
{
	auto& r = c.rng;
	std::string s;
	if (r.chance(1, 4)) s += " \t\n"[r.below(3)];
	if (r.chance(1, 3)) s += r.coin() ? "-" : "+";
	switch (r.below(6)) {
	case 0: s += fmt("%.*g", static_cast<int>(1 + r.below(20)), (r.unit() - 0.5) * std::pow(10, r.range(-320, 310))); break;
	case 1: s += fmt("%a", r.unit() * std::pow(2, r.range(-1080, 1030))); break;
	case 2: s += r.one({ "inf", "INFINITY", "nan", "nan(12)", "infinit", "1e", "1e+", "0x", "0x.p1", ".", ".e1", "1e400", "1e-400", "0x1p-1080", "4.9e-324", "2.4703282292062327e-324", "1.7976931348623159e308" }); break;
	case 3: for (size_t n = 1 + r.size(60); n--;) s += "0123456789.e+-x"[r.below(15)]; break;
	case 4: for (size_t n = 1 + r.size(400); n--;) s += static_cast<char>('0' + r.below(10)); s += '.'; for (size_t n = r.size(400); n--;) s += static_cast<char>('0' + r.below(10)); break;
	default: s += fmt("%lld", static_cast<long long>(r.next() >> r.below(64)));
	}
	if (r.chance(1, 4)) s += r.one({ "e5", "abc", " 1", ",5", "E-3x", "p3" });
	static locale_t loc[] = { stdex::locale_default, stdex::locale_C };
	locale_t l = loc[r.below(2)];
	double got, want;
	size_t end = stdex::npos, wend;
	char* q;
	want = ::strtod(s.c_str(), &q);
	wend = static_cast<size_t>(q - s.c_str());
	if (r.coin()) { Text<char> t(r, s); got = stdex::strtod(t.p(), t.count, &end, l); }
	else { Text<wchar_t> t(r, s); got = stdex::strtod(t.p(), t.count, &end, l); }
	uint64_t a, b;
	memcpy(&a, &got, 8);
	memcpy(&b, &want, 8);
	{
		Text<char> t1(r, s);
		Text<wchar_t> t2(r, s);
		double n1 = stdex::strtod(t1.p(), t1.count, nullptr, l), n2 = stdex::strtod(t2.p(), t2.count, nullptr, l);
		VH_CHECK(c, !memcmp(&n1, &want, 8) && !memcmp(&n2, &want, 8), "strtod-no-end", "%s gives %.17g and %.17g, %.17g expected", show(s).c_str(), n1, n2, want);
	}
	VH_CHECK(c, a == b && end == wend, "strtod", "%s gives %.17g (%llx), %.17g (%llx) expected; end %zu, %zu expected", show(s).c_str(), got, (unsigned long long)a, want, (unsigned long long)b, end, wend);
	if (wend) c.sig(s);
}

VH_MAIN
