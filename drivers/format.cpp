// T03: formatting into strings against the C library, at every length around internal buffer sizes.
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/string.hpp>

using namespace vh;

static locale_t locales(Rng& r)
{
	static locale_t de = ::newlocale(LC_ALL_MASK, "de_DE.utf8", locale_t(0));
	switch (r.below(4)) {
	case 0: return stdex::locale_C;
	case 1: return de ? de : static_cast<locale_t>(stdex::locale_C);
	default: return stdex::locale_default;
	}
}
struct Use
{
	locale_t old;
	explicit Use(locale_t l) : old(uselocale(l ? l : LC_GLOBAL_LOCALE)) {}
	~Use() { uselocale(old); }
};
static std::string ref(locale_t l, const char* f, ...)
{
	Use u(l);
	va_list a;
	va_start(a, f);
	char* p = nullptr;
	int n = vasprintf(&p, f, a);
	va_end(a);
	std::string s(p, n);
	free(p);
	return s;
}
static std::wstring ref(locale_t l, const wchar_t* f, ...)
{
	Use u(l);
	std::vector<wchar_t> b(70000);
	va_list a;
	va_start(a, f);
	int n = vswprintf(b.data(), b.size(), f, a);
	va_end(a);
	return std::wstring(b.data(), n < 0 ? 0 : n);
}
template <class T> static std::basic_string<T> vs(const T* f, locale_t l, ...)
{
	va_list a;
	va_start(a, l);
	auto s = stdex::vsprintf(f, l, a);
	va_end(a);
	return s;
}
template <class T> static size_t va(std::basic_string<T>& s, const T* f, locale_t l, ...)
{
	va_list a;
	va_start(a, l);
	size_t n = stdex::vappendf(s, f, l, a);
	va_end(a);
	return n;
}

// Memory with a mark behind it, as strftime() is not watched by the sanitizer.
static bool g_overrun;
template <class T> struct Marked
{
	using value_type = T;
	Marked() = default;
	template <class U> Marked(const Marked<U>&) {}
	T* allocate(size_t n)
	{
		auto p = static_cast<char*>(::operator new(n * sizeof(T) + 32));
		memset(p + n * sizeof(T), 0xa5, 32);
		return reinterpret_cast<T*>(p);
	}
	void deallocate(T* p, size_t n)
	{
		auto e = reinterpret_cast<unsigned char*>(p + n);
		for (int i = 0; i < 32; i++) if (e[i] != 0xa5) g_overrun = true;
		::operator delete(p);
	}
	bool operator==(const Marked&) const { return true; }
	bool operator!=(const Marked&) const { return false; }
};
template <class T> using Mstring = std::basic_string<T, std::char_traits<T>, Marked<T>>;

template <class T> static size_t length(Rng& r)
{
	size_t edge = 1024 / sizeof(T) << r.below(4);
	switch (r.below(5)) {
	case 0: return r.below(20);
	case 1: return r.below(5000);
	case 2: return r.chance(1, 10) ? r.below(60000) : r.below(3);
	default: return edge + r.below(7) - 3;
	}
}
template <class T> static std::basic_string<T> wd(const char* s) { return std::basic_string<T>(s, s + ::strlen(s)); }

template <class T> static void form(Case& c)
{
	auto& r = c.rng;
	auto l = locales(r);
	std::basic_string<T> pre(r.below(4) ? 0 : r.below(3000), T('p')), lead = wd<T>(r.one({ "", "x=", "%%" })), out, want;
	size_t len = length<T>(r);
	unsigned kind = static_cast<unsigned>(r.below(8));
	std::basic_string<T> f;
	size_t ret = 0;
	auto go = [&](auto... args) {
		want = ref(l, f.c_str(), args...);
		auto check = [&](const char* key, const std::basic_string<T>& got, const std::basic_string<T>& exp) {
			VH_CHECK(c, got == exp, key, "format %s kind %u: %zu characters %s, %zu expected %s", show(f, 40).c_str(), kind, got.size(), show(got, 40).c_str(), exp.size(), show(exp, 40).c_str());
		};
		out = pre;
		ret = stdex::appendf(out, f.c_str(), l, args...);
		check("appendf", out, pre + want);
		VH_CHECK(c, ret == want.size(), "appendf-count", "%zu characters appended, %zu reported", want.size(), ret);
		out = pre;
		ret = va(out, f.c_str(), l, args...);
		check("vappendf", out, pre + want);
		VH_CHECK(c, ret == want.size(), "vappendf-count", "%zu characters appended, %zu reported", want.size(), ret);
		out = pre;
		stdex::sprintf(out, f.c_str(), l, args...);
		check("sprintf", out, want);
		check("sprintf-value", stdex::sprintf(f.c_str(), l, args...), want);
		check("vsprintf-value", vs(f.c_str(), l, args...), want);
	};
	std::basic_string<T> body(len, T('b'));
	for (auto& ch : body) ch = static_cast<T>('a' + r.below(26));
	switch (kind) {
	case 0: f = lead + body; go(); break; // No arguments
	case 1: f = lead + wd<T>(sizeof(T) == 1 ? "%s" : "%ls"); go(body.c_str()); break;
	case 2: f = lead + wd<T>("%*d|"); go(static_cast<int>(len), static_cast<int>(r.next())); break;
	case 3: f = lead + wd<T>("%.*f"); go(static_cast<int>(len), (r.unit() - 0.5) * 1e6); break;
	case 4: f = lead + wd<T>(sizeof(T) == 1 ? "%d %s %llx" : "%d %ls %llx"); go(static_cast<int>(r.next()), body.c_str(), static_cast<unsigned long long>(r.next())); break;
	case 5: f = lead; go(); break; // Empty result, mostly
	case 6: { // A zero character in the result
		size_t at = len ? static_cast<size_t>(r.below(len + 1)) : 0;
		f = lead + wd<T>(sizeof(T) == 1 ? "%.*s%c%s" : "%.*ls%c%ls");
		go(static_cast<int>(at), body.c_str(), 0, body.c_str() + at);
		c.count("zero_inside");
		break;
	}
	default: f = wd<T>("%c%s%g"); { std::string n(len, 'n'); go(65, n.c_str(), r.unit()); }
	}
	c.sig(hash_bytes(want.data(), want.size() * sizeof(T), pre.size()));
	c.count(want.size() >= 1024 / sizeof(T) ? "on_heap" : "on_stack");
}
VH_GROUP(formatting, 30000, 300000, 8000)
{
	if (c.index & 1) form<char>(c);
	else form<wchar_t>(c);
}

// Failing conversions are exceptions and leave what was there
VH_GROUP(errors, 3000, 30000, 500)
{
	auto& r = c.rng;
	std::basic_string<char> pre(r.below(2000), 'p'), out = pre;
	std::string lead(length<char>(r), 'x');
	std::wstring bad(r.below(5), L'a');
	bad += static_cast<wchar_t>(0x110000 + r.below(100)); // Not representable in any encoding
	bool threw = false;
	try { stdex::appendf(out, "%s%ls", stdex::locale_C, lead.c_str(), bad.c_str()); }
	catch (const std::runtime_error&) { threw = true; }
	VH_CHECK(c, threw, "error-not-reported", "appended %zu characters", out.size() - pre.size());
	VH_CHECK(c, out == pre, "error-changes", "%zu characters, %zu expected", out.size(), pre.size());
	// Formatting still works
	stdex::sprintf(out, "%d", nullptr, 5);
	VH_CHECK(c, out == "5", "after-error", "%s", show(out).c_str());
	// Wide
	std::wstring wpre(r.below(600), L'w'), wout = wpre;
	std::string wlead(length<wchar_t>(r), 'x'), badmb(r.below(5), 'a');
	badmb += "\xff\xfe";
	threw = false;
	try { stdex::appendf(wout, L"%s%s", stdex::locale_C, wlead.c_str(), badmb.c_str()); }
	catch (const std::runtime_error&) { threw = true; }
	VH_CHECK(c, threw == (wout == wpre), "error-wide", "%zu characters, %zu before, %s", wout.size(), wpre.size(), threw ? "refused" : "accepted");
	if (!threw) VH_CHECK(c, wout.size() == wpre.size() + wlead.size() + badmb.size(), "error-wide", "%zu characters, %zu before, accepted", wout.size(), wpre.size());
	c.sig(pre.size() * 100000 + lead.size());
}

template <class T> static void times(Case& c)
{
	auto& r = c.rng;
	auto l = locales(r);
	time_t t = static_cast<time_t>(r.range(-3000000000ll, 9000000000ll));
	struct tm tm;
	gmtime_r(&t, &tm);
	std::basic_string<T> f;
	std::string plain(length<T>(r), 'q');
	if (r.chance(1, 6)) plain.clear();
	std::string fs = plain;
	for (size_t n = r.below(5); n--;) { fs.insert(r.below(fs.size() + 1), "\x01"); }
	for (char ch : fs) { if (ch == 1) f += wd<T>(r.one({ "%Y", "%m", "%d", "%H", "%M", "%S", "%j", "%y", "%a", "%B", "%%", "%p", "%Z", "%c" })); else f += static_cast<T>(ch); }
	if (r.chance(1, 12)) f = wd<T>(r.one({ "", "%p", "%P", "%%", "%n" })); // May be empty
	std::basic_string<T> want;
	{
		Use u(l);
		std::vector<T> b(f.size() * 40 + 100);
		size_t n;
		if constexpr (sizeof(T) == 1) n = ::strftime(b.data(), b.size(), f.c_str(), &tm);
		else n = ::wcsftime(b.data(), b.size(), f.c_str(), &tm);
		want.assign(b.data(), n);
	}
	std::basic_string<T> pre(r.below(4) ? 0 : r.below(3000), T('p')), out = pre;
	stdex::strcatftime(out, f.c_str(), &tm, l);
	VH_CHECK(c, out == pre + want, "strcatftime", "format %s: %zu characters, %zu expected: %s", show(f, 40).c_str(), out.size() - pre.size(), want.size(), show(out, 60).c_str());
	stdex::strftime(out, f.c_str(), &tm, l);
	VH_CHECK(c, out == want, "strftime", "format %s: %zu characters, %zu expected", show(f, 40).c_str(), out.size(), want.size());
	VH_CHECK(c, stdex::strftime(f.c_str(), &tm, l) == want, "strftime-value", "format %s", show(f, 40).c_str());
	g_overrun = false;
	{
		Mstring<T> m(pre.data(), pre.size());
		if (r.coin()) m.clear(), m.shrink_to_fit(), pre.clear();
		stdex::strcatftime(m, f.c_str(), &tm, l);
		VH_CHECK(c, m.size() == pre.size() + want.size() && !m.compare(pre.size(), m.npos, want.data(), want.size()), "strcatftime", "format %s: %zu characters, %zu expected, in a string with an allocator of its own", show(f, 40).c_str(), m.size() - pre.size(), want.size());
	}
	VH_CHECK(c, !g_overrun, "overrun", "format %s wrote behind the memory of its string with %zu characters of output", show(f, 40).c_str(), want.size());
	c.sig(hash_bytes(want.data(), want.size() * sizeof(T), pre.size()));
}
VH_GROUP(time_text, 20000, 200000, 4000)
{
	if (c.index & 1) times<char>(c);
	else times<wchar_t>(c);
}

VH_MAIN
