// T01: string functions against naive references, on exactly-sized buffers.
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/string.hpp>

using namespace vh;
static const std::locale& cl() { return std::locale::classic(); }

// A string as callers have it: exactly filled buffer, terminated buffer with limit at or beyond terminator, terminator inside.
template <class T>
struct Arg
{
	std::basic_string<T> v; // What it means
	std::unique_ptr<Exact<T>> buf;
	size_t count;
	bool terminated;
	Arg(Rng& r, std::basic_string<T> s, bool need_z = false) : v(s)
	{
		unsigned k = static_cast<unsigned>(r.below(need_z ? 3 : 4));
		terminated = k < 3;
		auto p = s;
		switch (k) {
		case 0: p += T(0); count = p.size(); break;
		case 1: p += T(0); count = r.coin() ? SIZE_MAX : p.size() + r.below(50); break;
		case 2: p += T(0); for (size_t i = r.below(5); i--;) p += static_cast<T>("a \n\0A"[r.below(5)]); count = p.size(); break;
		default: count = p.size();
		}
		buf.reset(new Exact<T>(p));
	}
	T* p() { return buf->data(); }
};

template <class T> static T unit(Rng& r, bool ascii)
{
	for (;;) {
		T ch;
		switch (r.below(ascii ? 5 : 7)) {
		case 0: case 1: ch = static_cast<T>("abcABC"[r.below(6)]); break;
		case 2: ch = static_cast<T>(" \t\n\r\v\f"[r.below(6)]); break;
		case 3: ch = static_cast<T>("@[`{/:09AZaz!~\x7f\x01\x1f"[r.below(17)]); break;
		case 4: ch = static_cast<T>(1 + r.below(0x7f)); break;
		case 5: ch = static_cast<T>(0x80 + r.below(0x80)); break;
		default: ch = static_cast<T>(sizeof(T) == 1 ? r.next() : sizeof(T) == 2 ? r.next() : r.below(0x110000));
		}
		if (ch) return ch;
	}
}
template <class T> static std::basic_string<T> text(Rng& r, size_t max, bool ascii)
{
	std::basic_string<T> s;
	size_t n = r.size(max);
	unsigned mode = static_cast<unsigned>(r.below(4));
	for (size_t i = 0; i < n; i++)
		s += mode == 0 ? static_cast<T>("ab"[r.below(2)]) : mode == 1 ? static_cast<T>("aAbB"[r.below(4)]) : mode == 2 ? static_cast<T>(" \ta\n "[r.below(5)]) : unit<T>(r, ascii);
	return s;
}
template <class T> static T low(T ch) { return ch >= 'A' && ch <= 'Z' ? static_cast<T>(ch + 32) : ch; }
template <class T> static T up(T ch) { return ch >= 'a' && ch <= 'z' ? static_cast<T>(ch - 32) : ch; }
template <class T> static bool space(T ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
template <class T> static std::basic_string<T> low(std::basic_string<T> s) { for (auto& ch : s) ch = low(ch); return s; }
template <class T> static std::basic_string<T> up(std::basic_string<T> s) { for (auto& ch : s) ch = up(ch); return s; }

template <class T1, class T2> static int cmp(const std::basic_string<T1>& a, const std::basic_string<T2>& b)
{
	for (size_t i = 0;; i++) {
		if (i >= a.size() || i >= b.size()) return i < a.size() ? 1 : i < b.size() ? -1 : 0;
		if (a[i] > b[i]) return 1;
		if (a[i] < b[i]) return -1;
	}
}
template <class T> static std::basic_string<T> rev(std::basic_string<T> s) { std::reverse(s.begin(), s.end()); return s; }
static int sgn(int x) { return (x > 0) - (x < 0); }

template <class T> static void find(Case& c)
{
	auto& r = c.rng;
	auto s = text<T>(r, 60, false);
	Arg<T> a(r, s);
	T ch = !s.empty() && r.coin() ? s[r.below(s.size())] : unit<T>(r, false);
	if (r.chance(1, 3)) ch = r.coin() ? up(ch) : low(ch);
	auto at = [](size_t p) { return p == std::basic_string<T>::npos ? stdex::npos : p; };
	auto sl = low(s);
	T cl_ = low(ch);
	size_t f = at(s.find(ch)), l = at(s.rfind(ch)), fi = at(sl.find(cl_)), li = at(sl.rfind(cl_));
#define EQ(expr, want, key) do { auto _g = (expr); auto _w = (want); VH_CHECK(c, _g == _w, key, #expr " on %s gives %lld, %lld expected (0x%x)", show(s).c_str(), static_cast<long long>(_g), static_cast<long long>(_w), static_cast<unsigned>(ch)); } while (0)
	EQ(stdex::strnlen(a.p(), a.count), s.size(), "strnlen");
	EQ(stdex::strnchr(a.p(), a.count, ch), f, "strnchr");
	EQ(stdex::strrnchr(a.p(), a.count, ch), l, "strrnchr");
	EQ(stdex::strnichr(a.p(), a.count, ch), fi, "strnichr");
	EQ(stdex::strrnichr(a.p(), a.count, ch), li, "strrnichr");
	bool blank = true, ascii = true;
	for (T x : s) blank = blank && space(x), ascii = ascii && x > 0 && x < 0x80;
	EQ(stdex::isblank(a.p(), a.count), blank, "isblank");
	EQ(stdex::is7bit(a.p(), a.count), ascii, "is7bit");
	if (a.terminated) {
		EQ(stdex::strlen(a.p()), s.size(), "strlen");
		EQ(stdex::strchr(a.p(), ch), f, "strchr");
		EQ(stdex::strrchr(a.p(), ch), l, "strrchr");
		EQ(stdex::strichr(a.p(), ch), fi, "strichr");
		EQ(stdex::strrichr(a.p(), ch), li, "strrichr");
	}
	if constexpr (!std::is_same<T, char16_t>::value) {
		EQ(stdex::strnichr(a.p(), a.count, ch, cl()), fi, "strnichr-locale");
		EQ(stdex::strrnichr(a.p(), a.count, ch, cl()), li, "strrnichr-locale");
		EQ(stdex::isblank(a.p(), a.count, cl()), blank, "isblank-locale");
		if (a.terminated) {
			EQ(stdex::strichr(a.p(), ch, cl()), fi, "strichr-locale");
			EQ(stdex::strrichr(a.p(), ch, cl()), li, "strrichr-locale");
		}
	}
	// Arrays
	T arr[7];
	size_t n = std::min<size_t>(7, s.size());
	std::copy(s.begin(), s.begin() + n, arr);
	if (n < 7) arr[n] = 0, std::fill(arr + n + 1, arr + 7, ch);
	auto as = s.substr(0, n), asl = low(as);
	EQ(stdex::strnlen(arr), n, "strnlen-array");
	EQ(stdex::strnchr(arr, ch), at(as.find(ch)), "strnchr-array");
	EQ(stdex::strrnchr(arr, ch), at(as.rfind(ch)), "strrnchr-array");
	EQ(stdex::strnichr(arr, ch), at(asl.find(cl_)), "strnichr-array");
	EQ(stdex::strrnichr(arr, ch), at(asl.rfind(cl_)), "strrnichr-array");
	// Single units
	EQ(stdex::isspace(ch), space(ch), "isspace");
	EQ(stdex::tolower(ch), low(ch), "tolower");
	EQ(stdex::toupper(ch), up(ch), "toupper");
	EQ(stdex::islower(ch), ch >= 'a' && ch <= 'z', "islower");
	EQ(stdex::isupper(ch), ch >= 'A' && ch <= 'Z', "isupper");
	EQ(stdex::isdigit(ch), ch >= '0' && ch <= '9', "isdigit");
	EQ(stdex::isalpha(ch), (ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z'), "isalpha");
	EQ(stdex::is7bit(ch), ch >= 0 && ch < 0x80, "is7bit-unit");
	EQ(stdex::ispunct(ch), ch > ' ' && ch < 0x7f && ::ispunct(static_cast<int>(ch)), "ispunct");
	EQ(stdex::islbreak(ch), ch == '\n' || ch == '\r', "islbreak-unit");
	{
		auto t = s;
		for (auto& x : t) if (r.chance(1, 2)) x = static_cast<T>("\r\n"[r.below(2)]);
		t = t.substr(0, r.below(4));
		Arg<T> b(r, t);
		size_t want = t.size() >= 2 && ((t[0] == '\r' && t[1] == '\n') || (t[0] == '\n' && t[1] == '\r')) ? 2 : !t.empty() && (t[0] == '\r' || t[0] == '\n') ? 1 : 0;
		VH_CHECK(c, stdex::islbreak(b.p(), b.count) == want, "islbreak", "%s: %zu, %zu expected", show(t).c_str(), stdex::islbreak(b.p(), b.count), want);
	}
	if (s.size() > 1) c.sig(hash_bytes(s.data(), s.size() * sizeof(T), static_cast<uint64_t>(ch)));
}
VH_GROUP(find_unit, 90000, 900000, 5000)
{
	switch (c.index % 3) {
	case 0: find<char>(c); break;
	case 1: find<wchar_t>(c); break;
	default: find<char16_t>(c);
	}
}

template <class T1, class T2> static void compare(Case& c)
{
	auto& r = c.rng;
	bool ascii = !std::is_same<T1, T2>::value;
	auto s1 = text<T1>(r, 30, ascii);
	std::basic_string<T2> s2;
	if (r.chance(2, 3)) {
		// Nearly the same
		for (T1 ch : s1) s2 += static_cast<T2>(ch);
		for (int k = static_cast<int>(r.below(3)); k-- && !s2.empty();) {
			size_t i = r.below(s2.size());
			switch (r.below(4)) {
			case 0: s2.erase(i); break;
			case 1: s2[i] = unit<T2>(r, ascii); break;
			case 2: s2[i] = s2[i] >= 'a' && s2[i] <= 'z' ? up(s2[i]) : low(s2[i]); break;
			default: s2.insert(i, 1, unit<T2>(r, ascii));
			}
		}
	}
	else s2 = text<T2>(r, 30, ascii);
	Arg<T1> a(r, s1);
	Arg<T2> b(r, s2);
#define CMP(expr, want, key) do { int _g = sgn(expr), _w = (want); VH_CHECK(c, _g == _w, key, #expr " on %s and %s gives %d, %d expected", show(s1).c_str(), show(s2).c_str(), _g, _w); } while (0)
	CMP(stdex::strncmp(a.p(), a.count, b.p(), b.count), cmp(s1, s2), "strncmp");
	CMP(stdex::strncmp(b.p(), b.count, a.p(), a.count), -cmp(s1, s2), "strncmp");
	CMP(stdex::strnicmp(a.p(), a.count, b.p(), b.count), cmp(low(s1), low(s2)), "strnicmp");
	CMP((stdex::strrncmp<T1, T2>(a.p(), a.count, b.p(), b.count)), cmp(rev(s1), rev(s2)), "strrncmp");
	if (a.terminated && b.terminated) {
		CMP(stdex::strcmp(a.p(), b.p()), cmp(s1, s2), "strcmp");
		CMP(stdex::stricmp(a.p(), b.p()), cmp(low(s1), low(s2)), "stricmp");
		CMP(stdex::strrcmp(a.p(), b.p()), cmp(rev(s1), rev(s2)), "strrcmp");
	}
	{
		// One limit for both
		size_t lim = r.below(std::max(s1.size(), s2.size()) + 3);
		Arg<T1> x(r, lim <= s1.size() ? s1.substr(0, lim) : s1, lim > s1.size());
		Arg<T2> y(r, lim <= s2.size() ? s2.substr(0, lim) : s2, lim > s2.size());
		auto t1 = s1.substr(0, lim);
		auto t2 = s2.substr(0, lim);
		CMP(stdex::strncmp(x.p(), y.p(), lim), cmp(t1, t2), "strncmp-limit");
		CMP(stdex::strnicmp(x.p(), y.p(), lim), cmp(low(t1), low(t2)), "strnicmp-limit");
		CMP((stdex::strrncmp<T1, T2>(x.p(), y.p(), lim)), cmp(rev(t1), rev(t2)), "strrncmp-limit");
		if constexpr (!std::is_same<T1, char16_t>::value && !std::is_same<T2, char16_t>::value)
			CMP(stdex::strnicmp(x.p(), y.p(), lim, cl()), cmp(low(t1), low(t2)), "strnicmp-limit-locale");
	}
	if constexpr (!std::is_same<T1, char16_t>::value && !std::is_same<T2, char16_t>::value) {
		CMP(stdex::strnicmp(a.p(), a.count, b.p(), b.count, cl()), cmp(low(s1), low(s2)), "strnicmp-locale");
		if (a.terminated && b.terminated) CMP(stdex::stricmp(a.p(), b.p(), cl()), cmp(low(s1), low(s2)), "stricmp-locale");
	}
	if constexpr (std::is_same<T1, T2>::value && !std::is_same<T1, char16_t>::value) {
		int want = sgn(std::use_facet<std::collate<T1>>(cl()).compare(s1.data(), s1.data() + s1.size(), s2.data(), s2.data() + s2.size()));
		CMP(stdex::strncoll(a.p(), a.count, b.p(), b.count, cl()), want, "strncoll");
		if (a.terminated && b.terminated) CMP(stdex::strcoll(a.p(), b.p(), cl()), want, "strcoll");
	}
	// Arrays
	T1 a1[5];
	T2 a2[6];
	auto fill = [&](auto& arr, auto s, size_t N) { size_t n = std::min(s.size(), N); std::copy(s.begin(), s.begin() + n, arr); if (n < N) { arr[n] = 0; for (size_t i = n + 1; i < N; i++) arr[i] = static_cast<typename std::remove_reference<decltype(arr[0])>::type>('a' + r.below(26)); } return s.substr(0, n); };
	auto t1 = fill(a1, s1, 5);
	auto t2 = fill(a2, s2, 6);
	CMP(stdex::strncmp(a1, a2), cmp(t1, t2), "strncmp-array");
	CMP(stdex::strrncmp(a1, a2), cmp(rev(t1), rev(t2)), "strrncmp-array");
	CMP(stdex::strnicmp(a1, a2), cmp(low(t1), low(t2)), "strnicmp-array");
	if constexpr (!std::is_same<T1, char16_t>::value && !std::is_same<T2, char16_t>::value)
		CMP(stdex::strnicmp(a1, a2, cl()), cmp(low(t1), low(t2)), "strnicmp-array-locale");

	// Finding one in the other
	auto sample = s2.substr(0, r.below(4));
	if (r.coin() && !s1.empty()) { sample.clear(); size_t i = r.below(s1.size()); for (T1 ch : s1.substr(i, r.below(6))) sample += static_cast<T2>(r.chance(1, 5) ? (ch >= 'a' && ch <= 'z' ? up(ch) : low(ch)) : ch); }
	Arg<T2> z(r, sample, true);
	auto search = [&](auto hay, auto needle) -> size_t {
		for (size_t i = 0; i <= hay.size(); i++) {
			size_t j = 0;
			while (j < needle.size() && i + j < hay.size() && hay[i + j] == needle[j]) j++;
			if (j == needle.size()) return i;
		}
		return stdex::npos;
	};
	size_t w = search(s1, sample), wi = search(low(s1), low(sample));
#define FND(expr, want, key) do { size_t _g = (expr), _w = (want); VH_CHECK(c, _g == _w, key, #expr " of %s in %s gives %zd, %zd expected", show(sample).c_str(), show(s1).c_str(), static_cast<ssize_t>(_g), static_cast<ssize_t>(_w)); } while (0)
	FND(stdex::strnstr(a.p(), a.count, z.p()), w, "strnstr");
	FND(stdex::strnistr(a.p(), a.count, z.p()), wi, "strnistr");
	FND(stdex::strnstr(a1, z.p()), search(t1, sample), "strnstr-array");
	FND(stdex::strnistr(a1, z.p()), search(low(t1), low(sample)), "strnistr-array");
	if (a.terminated) {
		FND(stdex::strstr(a.p(), z.p()), w, "strstr");
		FND(stdex::stristr(a.p(), z.p()), wi, "stristr");
	}
	if constexpr (!std::is_same<T1, char16_t>::value && !std::is_same<T2, char16_t>::value) {
		FND(stdex::strnistr(a.p(), a.count, z.p(), cl()), wi, "strnistr-locale");
		if (a.terminated) FND(stdex::stristr(a.p(), z.p(), cl()), wi, "stristr-locale");
	}
	if (s1.size() + s2.size() > 1) c.sig(hash_bytes(s2.data(), s2.size() * sizeof(T2), hash_bytes(s1.data(), s1.size() * sizeof(T1))));
}
VH_GROUP(compare_find, 90000, 900000, 5000)
{
	switch (c.index % 5) {
	case 0: compare<char, char>(c); break;
	case 1: compare<wchar_t, wchar_t>(c); break;
	case 2: compare<char, wchar_t>(c); break;
	case 3: compare<wchar_t, char>(c); break;
	default: compare<char16_t, char16_t>(c);
	}
}

template <class T1, class T2> static void copy(Case& c)
{
	auto& r = c.rng;
	bool ascii = !std::is_same<T1, T2>::value;
	auto src = text<T2>(r, 60, ascii);
	std::basic_string<T1> want(src.begin(), src.end());
	Arg<T2> a(r, src);
	auto check = [&](const char* key, const T1* dst, size_t size, const std::basic_string<T1>& all, size_t ret) {
		// As much as fits, terminated if there is space left
		auto exp = all.substr(0, std::min(size, all.size()));
		bool ok = ret == exp.size() && std::equal(exp.begin(), exp.end(), dst) && (exp.size() >= size || !dst[exp.size()]);
		VH_CHECK(c, ok, key, "%s into %zu units: returned %zu, %s", show(src).c_str(), size, ret, show(dst, std::min(size, all.size() + 1)).c_str());
	};
	{
		size_t size = r.chance(1, 3) ? src.size() : r.chance(1, 2) ? src.size() + 1 : r.below(src.size() + 10);
		std::vector<T1> init(size, T1('#'));
		Exact<T1> d(init);
		size_t n = stdex::strncpy(d.data(), size, a.p(), a.count);
		check("strncpy", d.data(), size, want, n);
		// Concatenate
		std::basic_string<T1> pre(r.below(6), T1('p'));
		size = r.coin() ? pre.size() + src.size() + r.below(3) : r.below(pre.size() + src.size() + 5);
		init.assign(size, T1('#'));
		for (size_t i = 0; i < size && i <= pre.size(); i++) init[i] = i < pre.size() ? pre[i] : T1(0);
		Exact<T1> e(init);
		n = stdex::strncat(e.data(), size, a.p(), a.count);
		check("strncat", e.data(), size, pre + want, n);
		if (a.terminated) {
			init.assign(src.size() + 1, T1('#'));
			Exact<T1> f(init);
			check("strcpy", f.data(), src.size() + 1, want, stdex::strcpy(f.data(), a.p()));
			init.assign(pre.size() + src.size() + 1, T1('#'));
			for (size_t i = 0; i <= pre.size(); i++) init[i] = i < pre.size() ? pre[i] : T1(0);
			Exact<T1> g(init);
			check("strcat", g.data(), pre.size() + src.size() + 1, pre + want, stdex::strcat(g.data(), a.p()));
		}
		// Source limited only
		size_t lim = r.below(src.size() + 3);
		auto cut = want.substr(0, lim);
		init.assign(lim < src.size() + 1 ? lim : src.size() + 1, T1('#'));
		Exact<T1> h(init);
		Arg<T2> b(r, src.substr(0, lim), lim > src.size());
		check("strncpy-limit", h.data(), h.n, cut, stdex::strncpy(h.data(), b.p(), lim));
		init.assign(pre.size() + cut.size() + 1, T1('#'));
		for (size_t i = 0; i <= pre.size(); i++) init[i] = i < pre.size() ? pre[i] : T1(0);
		Exact<T1> k(init);
		check("strncat-limit", k.data(), k.n, pre + cut, stdex::strncat(k.data(), b.p(), lim));
	}
	if constexpr (std::is_same<T1, T2>::value) {
		using T = T1;
		auto dup = [&](const char* key, T* p) {
			VH_CHECK(c, p && std::basic_string<T>(p) == src, key, "%s", show(src).c_str());
			delete[] p;
		};
		if (a.count != SIZE_MAX && a.count <= 1000) dup("strndup", stdex::strndup(a.p(), a.count));
		if (a.terminated) dup("strdup", stdex::strdup(a.p()));
		VH_CHECK(c, !stdex::strdup(static_cast<const T*>(nullptr)), "strdup-null", "not null");
		// Letter case and trimming in place
		auto wide = src;
		size_t b = 0, e = wide.size();
		while (b < e && space(wide[b])) b++;
		auto lt = wide.substr(b);
		while (e > b && space(wide[e - 1])) e--;
		auto tr = wide.substr(b, e - b);
		size_t re = wide.size();
		while (re && space(wide[re - 1])) re--;
		auto rt = wide.substr(0, re);
		auto in_place = [&](const char* key, const std::basic_string<T>& exp, auto fn, auto fs) {
			Arg<T> x(r, src);
			size_t n = fn(x.p(), x.count);
			// Result is terminated unless it fills the whole count
			bool ok = (n == stdex::npos || n == exp.size()) && std::equal(exp.begin(), exp.end(), x.p()) && (exp.size() >= x.buf->n || exp.size() == x.count || !x.p()[exp.size()]);
			VH_CHECK(c, ok, key, "%s gives %s, %zu", show(src).c_str(), show(x.p(), std::min(src.size() + 1, x.buf->n)).c_str(), n);
			auto s = src;
			fs(s);
			VH_CHECK(c, s == exp, key, "%s gives %s", show(src).c_str(), show(s).c_str());
		};
		in_place("ltrim", lt, [](T* p, size_t n) { return stdex::ltrim(p, n); }, [](auto& s) { stdex::ltrim(s); });
		in_place("rtrim", rt, [](T* p, size_t n) { return stdex::rtrim(p, n); }, [](auto& s) { stdex::rtrim(s); });
		in_place("trim", tr, [](T* p, size_t n) { return stdex::trim(p, n); }, [](auto& s) { stdex::trim(s); });
		in_place("strlwr", low(src), [](T* p, size_t n) { stdex::strlwr(p, n); return stdex::npos; }, [](auto& s) { stdex::strlwr(s); });
		in_place("strupr", up(src), [](T* p, size_t n) { stdex::strupr(p, n); return stdex::npos; }, [](auto& s) { stdex::strupr(s); });
		if constexpr (!std::is_same<T, char16_t>::value) {
			in_place("ltrim-locale", lt, [](T* p, size_t n) { return stdex::ltrim(p, n, cl()); }, [](auto& s) { stdex::ltrim(s, cl()); });
			in_place("rtrim-locale", rt, [](T* p, size_t n) { return stdex::rtrim(p, n, cl()); }, [](auto& s) { stdex::rtrim(s, cl()); });
			in_place("trim-locale", tr, [](T* p, size_t n) { return stdex::trim(p, n, cl()); }, [](auto& s) { stdex::trim(s, cl()); });
			in_place("strlwr-locale", low(src), [](T* p, size_t n) { stdex::strlwr(p, n, cl()); return stdex::npos; }, [](auto& s) { stdex::strlwr(s, cl()); });
			in_place("strupr-locale", up(src), [](T* p, size_t n) { stdex::strupr(p, n, cl()); return stdex::npos; }, [](auto& s) { stdex::strupr(s, cl()); });
		}
		T arr[8];
		size_t n = std::min<size_t>(8, src.size());
		std::copy(src.begin(), src.begin() + n, arr);
		if (n < 8) arr[n] = 0;
		stdex::strupr(arr);
		VH_CHECK(c, std::basic_string<T>(arr, n) == up(src.substr(0, n)), "strupr-array", "%s", show(src).c_str());
		stdex::strlwr(arr);
		VH_CHECK(c, std::basic_string<T>(arr, n) == low(src.substr(0, n)), "strlwr-array", "%s", show(src).c_str());
		// Line ends
		auto lines = src;
		for (auto& ch : lines) if (r.coin()) ch = static_cast<T>("\r\n"[r.below(2)]);
		std::basic_string<T> nl;
		for (size_t i = 0; i < lines.size(); i++) if (lines[i] != '\r' || i + 1 >= lines.size() || lines[i + 1] != '\n') nl += lines[i];
		Arg<T> x(r, lines, true);
		std::basic_string<T> o(3, T('o')), io = lines;
		stdex::crlf2nl(o, x.p());
		VH_CHECK(c, o == nl, "crlf2nl-string", "%s gives %s", show(lines).c_str(), show(o).c_str());
		stdex::crlf2nl(io);
		VH_CHECK(c, io == nl, "crlf2nl-in-place", "%s gives %s", show(lines).c_str(), show(io).c_str());
		std::vector<T> init(lines.size() + 1, T('#'));
		Exact<T> d(init);
		size_t k = stdex::crlf2nl(d.data(), x.p());
		VH_CHECK(c, k == nl.size() && std::basic_string<T>(d.data(), k) == nl && !d.data()[k], "crlf2nl", "%s gives %s", show(lines).c_str(), show(d.data(), k).c_str());
		k = stdex::crlf2nl(x.p(), x.p());
		VH_CHECK(c, k == nl.size() && std::basic_string<T>(x.p(), k) == nl && !x.p()[k], "crlf2nl-same", "%s", show(lines).c_str());
	}
	if (src.size() > 1) c.sig(hash_bytes(src.data(), src.size() * sizeof(T2), sizeof(T1)));
}
VH_GROUP(copy_modify, 60000, 600000, 5000)
{
	switch (c.index % 5) {
	case 0: copy<char, char>(c); break;
	case 1: copy<wchar_t, wchar_t>(c); break;
	case 2: copy<char, wchar_t>(c); break;
	case 3: copy<wchar_t, char>(c); break;
	default: copy<char16_t, char16_t>(c);
	}
}

static bool combining(uint32_t ch) { return (ch >= 0x300 && ch <= 0x36f) || (ch >= 0x1dc0 && ch <= 0x1dff) || (ch >= 0x20d0 && ch <= 0x20ff) || (ch >= 0xfe20 && ch <= 0xfe2f); }
VH_GROUP(surrogates, 40000, 400000, 3000)
{
	auto& r = c.rng;
	// Code points, some of them unpaired surrogates
	std::vector<uint32_t> pts;
	for (size_t n = 1 + r.size(12); n--;)
		pts.push_back(r.chance(1, 3) ? r.one<uint32_t>({ 0x300, 0x36f, 0x370, 0x2ff, 0x1dbf, 0x1dc0, 0x1dff, 0x1e00, 0x20cf, 0x20d0, 0x20ff, 0x2100, 0xfe1f, 0xfe20, 0xfe2f, 0xfe30 })
			: r.chance(1, 3) ? 0x10000 + static_cast<uint32_t>(r.below(0x100000)) : r.chance(1, 5) ? 0xd800 + static_cast<uint32_t>(r.below(0x800)) : 1 + static_cast<uint32_t>(r.below(0xd7ff)));
	std::u16string s16;
	for (uint32_t p : pts) {
		if (p < 0x10000) s16 += static_cast<char16_t>(p);
		else {
			char16_t u[2];
			stdex::ucs4_to_surrogate_pair(u, static_cast<wchar_t>(p));
			VH_CHECK(c, u[0] == 0xd800 + ((p - 0x10000) >> 10) && u[1] == 0xdc00 + ((p - 0x10000) & 0x3ff), "to-surrogates", "U+%x gives %x %x", p, u[0], u[1]);
			VH_CHECK(c, stdex::is_surrogate_pair(u) && stdex::surrogate_pair_to_ucs4(u) == static_cast<wchar_t>(p), "from-surrogates", "U+%x", p);
			s16.append(u, 2);
		}
		VH_CHECK(c, stdex::iscombining(static_cast<wchar_t>(p)) == combining(p), "iscombining", "U+%x", p);
	}
	// What the UTF-16 means
	std::wstring s32;
	std::vector<size_t> len16;
	for (size_t i = 0; i < s16.size(); i++) {
		bool hi = (s16[i] & 0xfc00) == 0xd800, lo = (s16[i] & 0xfc00) == 0xdc00;
		VH_CHECK(c, stdex::is_high_surrogate(s16[i]) == hi && stdex::is_low_surrogate(s16[i]) == lo, "surrogate-class", "%x", s16[i]);
		if (hi && i + 1 < s16.size() && (s16[i + 1] & 0xfc00) == 0xdc00) { s32 += static_cast<wchar_t>(0x10000 + ((s16[i] & 0x3ff) << 10) + (s16[i + 1] & 0x3ff)); i++; len16.push_back(2); }
		else s32 += static_cast<wchar_t>(s16[i]), len16.push_back(1);
	}
	Arg<char16_t> a(r, s16);
	Arg<wchar_t> w(r, s32);
	// Glyphs: a code point with the combining ones after it
	size_t g = 1, g16 = len16[0];
	for (; g < s32.size() && combining(static_cast<uint32_t>(s32[g])); g++) g16 += len16[g];
	Exact<char16_t> e16(s16);
	Exact<wchar_t> e32(s32);
	VH_CHECK(c, stdex::glyphlen(e16.data(), s16.size()) == g16, "glyphlen16", "%s: %zu, %zu expected", show(s16).c_str(), stdex::glyphlen(e16.data(), s16.size()), g16);
	VH_CHECK(c, stdex::glyphlen(e32.data(), s32.size()) == g, "glyphlen32", "%s: %zu, %zu expected", show(s32).c_str(), stdex::glyphlen(e32.data(), s32.size()), g);
	VH_CHECK(c, stdex::glyphlen(e16.data(), 0) == 0 && stdex::glyphlen(e32.data(), 0) == 0, "glyphlen-empty", "not 0");
	size_t k = s32.size() - 1, l16 = len16[k];
	while (k && combining(static_cast<uint32_t>(s32[k]))) l16 += len16[--k];
	VH_CHECK(c, stdex::glyphrlen(e16.data(), s16.size()) == l16, "glyphrlen16", "%s: %zu, %zu expected", show(s16).c_str(), stdex::glyphrlen(e16.data(), s16.size()), l16);
	VH_CHECK(c, stdex::glyphrlen(e32.data(), s32.size()) == s32.size() - k, "glyphrlen32", "%s: %zu, %zu expected", show(s32).c_str(), stdex::glyphrlen(e32.data(), s32.size()), s32.size() - k);
	// Comparing across encodings
	auto other = s32;
	if (r.coin() && !other.empty()) { size_t i = r.below(other.size()); if (r.coin()) other.erase(i); else other[i] = static_cast<wchar_t>(r.coin() ? 1 + r.below(0xd7ff) : 0x10000 + r.below(0x100000)); }
	Arg<wchar_t> o(r, other);
	int want = cmp(other, s32), got = sgn(stdex::strncmp(o.p(), o.count, a.p(), a.count));
	VH_CHECK(c, got == want, "strncmp-32-16", "%s and %s: %d, %d expected", show(other).c_str(), show(s16).c_str(), got, want);
	// Copying across encodings
	size_t size = r.coin() ? s32.size() + r.below(2) : r.below(s32.size() + 4);
	std::vector<wchar_t> init(size, L'#');
	Exact<wchar_t> d(init);
	size_t n = stdex::strncpy(d.data(), size, a.p(), a.count), exp = std::min(size, s32.size());
	VH_CHECK(c, n == exp && std::equal(s32.begin(), s32.begin() + exp, d.data()) && (exp >= size || !d.data()[exp]), "strncpy-32-16", "%s into %zu", show(s16).c_str(), size);
	if (a.terminated) {
		init.assign(s32.size() + 1, L'#');
		Exact<wchar_t> f(init);
		n = stdex::strcpy(f.data(), a.p());
		VH_CHECK(c, n == s32.size() && std::equal(s32.begin(), s32.end(), f.data()) && !f.data()[n], "strcpy-32-16", "%s", show(s16).c_str());
	}
	if (s16.size() > 1) c.sig(hash_bytes(s16.data(), s16.size() * 2));
}

// What a C++ locale given says decides, not ASCII and not the locale of the process. The C library's functions are the reference.
struct Loc { const char* name; std::locale cpp; locale_t c; };
static const std::vector<Loc>& locs()
{
	static const std::vector<Loc> list = [] {
		std::vector<Loc> l;
		for (const char* n : { "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8", "sl_SI.UTF-8", "el_GR.UTF-8", "de_DE", "sl_SI", "tr_TR", "ru_RU", "C" }) {
			locale_t c = ::newlocale(LC_ALL_MASK, n, locale_t(0));
			if (c) try { l.push_back({ n, std::locale(n), c }); } catch (const std::exception&) {}
		}
		return l;
	}();
	return list;
}
static char tolower_c(char x, locale_t l) { return static_cast<char>(::tolower_l(static_cast<unsigned char>(x), l)); }
static char toupper_c(char x, locale_t l) { return static_cast<char>(::toupper_l(static_cast<unsigned char>(x), l)); }
static bool isspace_c(char x, locale_t l) { return ::isspace_l(static_cast<unsigned char>(x), l) != 0; }
static wchar_t tolower_c(wchar_t x, locale_t l) { return static_cast<wchar_t>(::towlower_l(static_cast<wint_t>(x), l)); }
static wchar_t toupper_c(wchar_t x, locale_t l) { return static_cast<wchar_t>(::towupper_l(static_cast<wint_t>(x), l)); }
static bool isspace_c(wchar_t x, locale_t l) { return ::iswspace_l(static_cast<wint_t>(x), l) != 0; }
static int coll_c(const std::string& a, const std::string& b, locale_t l) { return sgn(::strcoll_l(a.c_str(), b.c_str(), l)); }
static int coll_c(const std::wstring& a, const std::wstring& b, locale_t l) { return sgn(::wcscoll_l(a.c_str(), b.c_str(), l)); }

template <class T> static void localised(Case& c)
{
	auto& r = c.rng;
	const Loc& l = r.pick(locs());
	// Pool of the units of this case: few, related by letter case
	std::basic_string<T> pool;
	for (size_t n = 1 + r.below(4); n--;) {
		T x = sizeof(T) == 1 ? static_cast<T>(0x80 + r.below(0x80))
			: static_cast<T>(r.one<uint32_t>({ 0xc4, 0xe4, 0x10c, 0x10d, 0x130, 0x131, 'i', 'I', 0x3a3, 0x3c3, 0x3c2, 0x416, 0x436, 0x10400, 0x10428, 0xdf, 0x1e9e, 0x2003, 0x1680, 0x3000, 0xa0, 0x85, 0x2028, 0x2000 + static_cast<uint32_t>(r.below(12)) }));
		pool += x, pool += tolower_c(x, l.c), pool += toupper_c(x, l.c);
	}
	if (r.coin()) for (char x : std::string("aAiI \t")) pool += static_cast<T>(x);
	auto make = [&](size_t max) { std::basic_string<T> s; for (size_t n = r.size(max); n--;) s += pool[r.below(pool.size())]; return s; };
	auto s1 = make(20), s2 = r.chance(2, 3) ? s1 : make(20);
	for (auto& x : s2) if (r.chance(1, 3)) x = r.coin() ? tolower_c(x, l.c) : toupper_c(x, l.c);
	if (r.chance(1, 3) && !s2.empty()) s2[r.below(s2.size())] = pool[r.below(pool.size())];
	if (r.chance(1, 4) && !s2.empty()) s2.erase(r.below(s2.size()));
	auto lo = [&](std::basic_string<T> s) { for (auto& x : s) x = tolower_c(x, l.c); return s; };
	auto hi = [&](std::basic_string<T> s) { for (auto& x : s) x = toupper_c(x, l.c); return s; };
	auto at = [](size_t p) { return p == std::basic_string<T>::npos ? stdex::npos : p; };
	auto blank = [&](const std::basic_string<T>& s) { for (T x : s) if (!isspace_c(x, l.c)) return false; return true; };
	Arg<T> a(r, s1), b(r, s2);
	T ch = pool[r.below(pool.size())], chl = tolower_c(ch, l.c);
	auto s = s1;
#define LEQ(expr, want, key) do { auto _g = (expr); auto _w = (want); VH_CHECK(c, _g == _w, key, #expr " on %s and %s in %s gives %lld, %lld expected (0x%x)", show(s1).c_str(), show(s2).c_str(), l.name, static_cast<long long>(_g), static_cast<long long>(_w), static_cast<unsigned>(ch)); } while (0)
	auto l1 = lo(s1), l2 = lo(s2);
	LEQ(stdex::strnichr(a.p(), a.count, ch, l.cpp), at(l1.find(chl)), "strnichr-named");
	LEQ(stdex::strrnichr(a.p(), a.count, ch, l.cpp), at(l1.rfind(chl)), "strrnichr-named");
	LEQ(stdex::isblank(a.p(), a.count, l.cpp), blank(s1), "isblank-named");
	LEQ(sgn(stdex::strnicmp(a.p(), a.count, b.p(), b.count, l.cpp)), cmp(l1, l2), "strnicmp-named");
	LEQ(sgn(stdex::strncoll(a.p(), a.count, b.p(), b.count, l.cpp)), coll_c(s1, s2, l.c), "strncoll-named");
	if (a.terminated) {
		LEQ(stdex::strichr(a.p(), ch, l.cpp), at(l1.find(chl)), "strichr-named");
		LEQ(stdex::strrichr(a.p(), ch, l.cpp), at(l1.rfind(chl)), "strrichr-named");
		if (b.terminated) {
			LEQ(sgn(stdex::stricmp(a.p(), b.p(), l.cpp)), cmp(l1, l2), "stricmp-named");
			LEQ(sgn(stdex::strcoll(a.p(), b.p(), l.cpp)), coll_c(s1, s2, l.c), "strcoll-named");
		}
	}
	auto sub = r.coin() && !s2.empty() ? s2.substr(r.below(s2.size()), r.below(4)) : make(3);
	Arg<T> z(r, sub, true);
	LEQ(stdex::strnistr(a.p(), a.count, z.p(), l.cpp), at(l1.find(lo(sub))), "strnistr-named");
	if (a.terminated) LEQ(stdex::stristr(a.p(), z.p(), l.cpp), at(l1.find(lo(sub))), "stristr-named");
	// Arrays, filled or terminated
	T a1[6], a2[8];
	auto fill = [&](T* arr, size_t N, const std::basic_string<T>& x) { size_t n = std::min(x.size(), N); std::copy(x.begin(), x.begin() + n, arr); if (n < N) { arr[n] = 0; for (size_t i = n + 1; i < N; i++) arr[i] = ch; } return x.substr(0, n); };
	auto t1 = fill(a1, 6, s1), t2 = fill(a2, 8, s2), u1 = lo(t1), u2 = lo(t2);
	LEQ(stdex::strnichr(a1, ch, l.cpp), at(u1.find(chl)), "strnichr-named-array");
	LEQ(stdex::strrnichr(a1, ch, l.cpp), at(u1.rfind(chl)), "strrnichr-named-array");
	LEQ(stdex::isblank(a1, l.cpp), blank(t1), "isblank-named-array");
	LEQ(stdex::isblank(a1), [&] { for (T x : t1) if (!space(x)) return false; return true; }(), "isblank-array");
	LEQ(sgn(stdex::strnicmp(a1, a2, l.cpp)), cmp(u1, u2), "strnicmp-named-array");
	LEQ(sgn(stdex::strncoll(a1, a2, l.cpp)), coll_c(t1, t2, l.c), "strncoll-named-array");
	LEQ(stdex::strnistr(a1, z.p(), l.cpp), at(u1.find(lo(sub))), "strnistr-named-array");
	stdex::strupr(a1, l.cpp);
	VH_CHECK(c, std::basic_string<T>(a1, t1.size()) == hi(t1), "strupr-named-array", "%s in %s", show(t1).c_str(), l.name);
	stdex::strlwr(a2, l.cpp);
	VH_CHECK(c, std::basic_string<T>(a2, t2.size()) == lo(t2), "strlwr-named-array", "%s in %s", show(t2).c_str(), l.name);
	// In place
	size_t i = 0, k = s1.size();
	while (i < s1.size() && isspace_c(s1[i], l.c)) i++;
	while (k && isspace_c(s1[k - 1], l.c)) k--;
	auto in_place = [&](const char* key, const std::basic_string<T>& exp, auto fn, auto fs) {
		Arg<T> x(r, s1);
		size_t n = fn(x.p(), x.count);
		bool ok = (n == stdex::npos || n == exp.size()) && std::equal(exp.begin(), exp.end(), x.p()) && (exp.size() >= x.buf->n || exp.size() == x.count || !x.p()[exp.size()]);
		VH_CHECK(c, ok, key, "%s in %s gives %s, %zu", show(s1).c_str(), l.name, show(x.p(), std::min(s1.size() + 1, x.buf->n)).c_str(), n);
		auto y = s1;
		fs(y);
		VH_CHECK(c, y == exp, key, "%s in %s gives %s", show(s1).c_str(), l.name, show(y).c_str());
	};
	in_place("ltrim-named", s1.substr(i), [&](T* p, size_t n) { return stdex::ltrim(p, n, l.cpp); }, [&](auto& x) { stdex::ltrim(x, l.cpp); });
	in_place("rtrim-named", s1.substr(0, k), [&](T* p, size_t n) { return stdex::rtrim(p, n, l.cpp); }, [&](auto& x) { stdex::rtrim(x, l.cpp); });
	in_place("trim-named", i < k ? s1.substr(i, k - i) : std::basic_string<T>(), [&](T* p, size_t n) { return stdex::trim(p, n, l.cpp); }, [&](auto& x) { stdex::trim(x, l.cpp); });
	in_place("strlwr-named", lo(s1), [&](T* p, size_t n) { stdex::strlwr(p, n, l.cpp); return stdex::npos; }, [&](auto& x) { stdex::strlwr(x, l.cpp); });
	in_place("strupr-named", hi(s1), [&](T* p, size_t n) { stdex::strupr(p, n, l.cpp); return stdex::npos; }, [&](auto& x) { stdex::strupr(x, l.cpp); });
	c.count(l.name);
	if (s1.size() > 1) c.sig(hash_bytes(s1.data(), s1.size() * sizeof(T), hash_bytes(l.name, strlen(l.name))));
}
VH_GROUP(named_locale, 40000, 600000, 5000)
{
	if (c.index & 1) localised<char>(c); else localised<wchar_t>(c);
}

VH_MAIN
