// E06: URL, CSS and HTML escaping against independent codecs.
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/html.hpp>

using namespace vh;

static int hexv(uint32_t ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }

template <class T> static std::basic_string<T> text(Rng& r, const char* bias, bool any)
{
	std::basic_string<T> s;
	size_t n = r.size(300);
	size_t nb = ::strlen(bias);
	for (size_t i = 0; i < n; i++) {
		switch (r.below(4)) {
		case 0: case 1: s += static_cast<T>(bias[r.below(nb)]); break;
		case 2: s += static_cast<T>(0x20 + r.below(0x5f)); break;
		default: {
			T ch = static_cast<T>(any ? (sizeof(T) == 1 ? r.next() : r.below(0x11000)) : 'a' + r.below(26));
			s += ch ? ch : T(1);
		}
		}
	}
	return s;
}

// Range given as exactly the text, or terminated inside a longer range with hostile leftovers
template <class T, class F> static std::basic_string<T> run(Rng& r, const std::basic_string<T>& src, std::basic_string<T> dst, F fn)
{
	std::basic_string<T> p = src;
	size_t count = p.size();
	switch (r.below(4)) {
	case 0: p += T(0); for (char ch : std::string("%41\\")) p += T(ch); count = p.size(); break;
	case 1: p += T(0); count = r.coin() ? SIZE_MAX : p.size() + r.below(100); break;
	default: break;
	}
	Exact<T> x(p);
	fn(dst, x.data(), count);
	return dst;
}

static bool unreserved(uint8_t ch) { return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch && strchr("-._~!*'(),", ch)); }

VH_GROUP(url, 60000, 600000, 5000)
{
	auto& r = c.rng;
	auto src = text<char>(r, "%+ &=#?\"<>{}|\\^~[]`;/:@$\x7f\xff\x80", true);
	std::string pre = r.coin() ? "p%4" : "";
	auto enc = run(r, src, pre, [](auto& d, const char* s, size_t n) { stdex::html::url_escape(d, s, n); });
	VH_CHECK(c, enc.compare(0, pre.size(), pre) == 0, "url-escape-append", "earlier text lost");
	enc.erase(0, pre.size());
	std::string want;
	bool ok = true;
	for (size_t i = 0; i < enc.size() && ok; i++) {
		if (enc[i] == '%') {
			ok = i + 2 < enc.size() && hexv(enc[i + 1]) >= 0 && hexv(enc[i + 2]) >= 0;
			if (ok) want += static_cast<char>(hexv(enc[i + 1]) << 4 | hexv(enc[i + 2])), i += 2;
		}
		else ok = unreserved(static_cast<uint8_t>(enc[i])), want += enc[i];
	}
	VH_CHECK(c, ok, "url-escape-alphabet", "%s escaped as %s", show(src).c_str(), show(enc).c_str());
	VH_CHECK(c, !ok || want == src, "url-escape", "%s escaped as %s", show(src).c_str(), show(enc).c_str());
	auto back = run(r, enc, pre, [](auto& d, const char* s, size_t n) { stdex::html::url_unescape(d, s, n); });
	VH_CHECK(c, back == pre + src, "url-round-trip", "%s escaped as %s unescaped to %s", show(src).c_str(), show(enc).c_str(), show(back).c_str());
	std::string o1, o2;
	stdex::html::url_escape(o1, src);
	stdex::html::url_unescape(o2, enc);
	VH_CHECK(c, o1 == enc && o2 == src, "url-overload", "%s", show(src).c_str());
	if (src.size() > 1) c.sig(src);
}
VH_GROUP(url_unescape, 60000, 600000, 5000)
{
	auto& r = c.rng;
	std::string src;
	size_t n = r.size(60);
	for (size_t i = 0; i < n; i++) {
		switch (r.below(6)) {
		case 0: src += fmt(r.coin() ? "%%%02x" : "%%%02X", static_cast<unsigned>(r.below(256))); break;
		case 1: src += '%'; break;
		case 2: src += '%', src += "0123456789abcdefABCDEFgG@`/:"[r.below(28)]; break;
		case 3: src += '+'; break;
		default: { char ch = static_cast<char>(r.next()); src += ch ? ch : 'z'; }
		}
	}
	std::string want;
	for (size_t i = 0; i < src.size(); i++) {
		if (src[i] == '+') want += ' ';
		else if (src[i] == '%' && i + 2 < src.size() && hexv(static_cast<uint8_t>(src[i + 1])) >= 0 && hexv(static_cast<uint8_t>(src[i + 2])) >= 0)
			want += static_cast<char>(hexv(static_cast<uint8_t>(src[i + 1])) << 4 | hexv(static_cast<uint8_t>(src[i + 2]))), i += 2;
		else want += src[i];
	}
	auto out = run(r, src, std::string("p"), [](auto& d, const char* s, size_t n) { stdex::html::url_unescape(d, s, n); });
	VH_CHECK(c, out == "p" + want, "url-unescape", "%s unescaped to %s, %s expected", show(src).c_str(), show(out).c_str(), show(want).c_str());
	if (src.size() > 1) c.sig(src);
}

template <class T> static void css(Case& c)
{
	auto& r = c.rng;
	auto src = text<T>(r, "\\\\\n\r\t\"'abcdef019 nrt<", true);
	std::basic_string<T> pre(r.below(3), T('\\'));
	auto enc = run(r, src, pre, [](auto& d, const T* s, size_t n) { stdex::html::css_escape(d, s, n); });
	VH_CHECK(c, enc.compare(0, pre.size(), pre) == 0, "css-escape-append", "earlier text lost");
	enc.erase(0, pre.size());
	// Safe inside of a string in either quotes, and inside of <style>
	for (size_t i = 0; i < enc.size(); i++) {
		if (enc[i] == '\\') { i++; VH_CHECK(c, i < enc.size(), "css-escape", "%s escaped as %s", show(src).c_str(), show(enc).c_str()); continue; }
		if (enc[i] == '"' || enc[i] == '\'' || enc[i] == '\n' || enc[i] == '\r' || enc[i] == '<') { c.fail("css-escape-alphabet", "%s escaped as %s", show(src).c_str(), show(enc).c_str()); return; }
	}
	auto back = run(r, enc, pre, [](auto& d, const T* s, size_t n) { stdex::html::css_unescape(d, s, n); });
	VH_CHECK(c, back == pre + src, "css-round-trip", "%s escaped as %s unescaped to %s", show(src).c_str(), show(enc).c_str(), show(back).c_str());
	std::basic_string<T> o1, o2;
	stdex::html::css_escape(o1, src);
	stdex::html::css_unescape(o2, enc);
	VH_CHECK(c, o1 == enc && o2 == src, "css-overload", "%s", show(src).c_str());
	if (src.size() > 1) c.sig(hash_bytes(src.data(), src.size() * sizeof(T)));
}
VH_GROUP(css_round, 60000, 600000, 5000)
{
	if (c.index & 1) css<char>(c);
	else css<wchar_t>(c);
}

template <class T> static void cssun(Case& c)
{
	auto& r = c.rng;
	std::basic_string<T> src, want;
	auto add = [&](const std::string& s) { for (char ch : s) src += T(ch); };
	size_t n = r.size(40);
	bool tail = false;
	for (size_t i = 0; i < n; i++) {
		switch (r.below(8)) {
		case 0: case 1: { // Numeric escape: 1..6 digits, one space belongs to it
			unsigned digits = 1 + static_cast<unsigned>(r.below(6));
			uint32_t v = static_cast<uint32_t>(1 + r.below(std::min<uint64_t>((1ull << (4 * digits)) - 1, sizeof(T) == 1 ? 0x7f : 0x10ffff)));
			add("\\" + fmt(r.coin() ? "%0*x" : "%0*X", digits, v));
			want += static_cast<T>(v);
			bool room = digits == 6;
			if (r.coin()) add(" ");
			else if (!room || r.coin()) { src += T('z'); want += T('z'); } // Something that is no digit nor space
			else { src += T('a'); want += T('a'); } // After six digits a digit is an ordinary character
			break;
		}
		case 2: { char e = "nrt"[r.below(3)]; add("\\"); src += T(e); want += e == 'n' ? T('\n') : e == 'r' ? T('\r') : T('\t'); break; }
		case 3: add("\\\n"); break; // Line continuation
		case 4: { char e = "\\\"'gz{}#.:;- "[r.below(13)]; add("\\"); src += T(e); want += T(e); break; }
		default: { T ch = r.coin() ? T(0x20 + r.below(0x5f)) : static_cast<T>(r.next() & 0xffff); if (!ch || ch == T('\\')) ch = T('q'); src += ch; want += ch; }
		}
	}
	if (r.chance(1, 4)) { src += T('\\'); tail = true; } // Cut off
	auto out = run(r, src, std::basic_string<T>(), [](auto& d, const T* s, size_t n) { stdex::html::css_unescape(d, s, n); });
	VH_CHECK(c, out == want || (tail && out == want + T('\\')), "css-unescape", "%s unescaped to %s, %s expected", show(src).c_str(), show(out).c_str(), show(want).c_str());
	if (src.size() > 1) c.sig(hash_bytes(src.data(), src.size() * sizeof(T)));
	// Arbitrary text: ends, in bounds
	auto any = text<T>(r, "\\\\\\\\\n019afAF gn", true);
	out = run(r, any, std::basic_string<T>(), [](auto& d, const T* s, size_t n) { stdex::html::css_unescape(d, s, n); });
	VH_CHECK(c, out.size() <= any.size(), "css-unescape-longer", "%s", show(any).c_str());
}
VH_GROUP(css_unescape, 60000, 600000, 5000)
{
	if (c.index & 1) cssun<char>(c);
	else cssun<wchar_t>(c);
}

template <class T> static bool unhtml(const std::basic_string<T>& s, std::basic_string<T>& out, bool min)
{
	static const std::map<std::string, uint32_t> names = { { "amp", '&' }, { "semi", ';' }, { "quot", '"' }, { "lt", '<' }, { "gt", '>' }, { "nbsp", 0xa0 }, { "apos", '\'' } };
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '<' || s[i] == '>' || (!min && (s[i] == '"' || s[i] == '\'')) || (sizeof(T) > 1 && s[i] == T(0xa0))) return false; // Must not stay
		if (s[i] != '&') { out += s[i]; continue; }
		std::string n;
		for (i++; i < s.size() && s[i] != ';'; i++) n += static_cast<char>(s[i]);
		if (i >= s.size()) return false;
		uint32_t v;
		if (n.size() > 1 && n[0] == '#') v = static_cast<uint32_t>(n[1] == 'x' ? ::strtoul(n.c_str() + 2, nullptr, 16) : ::strtoul(n.c_str() + 1, nullptr, 10));
		else { auto it = names.find(n); if (it == names.end()) return false; v = it->second; }
		out += static_cast<T>(v);
	}
	return true;
}
template <class T> static void html(Case& c)
{
	auto& r = c.rng;
	auto src = text<T>(r, "&;\"'<>amp#x27lt\xa0", true);
	for (auto& ch : src) if (ch < 0 && sizeof(T) > 1) ch = T(0xa0);
	std::basic_string<T> pre(r.below(3), T('&'));
	auto enc = run(r, src, pre, [](auto& d, const T* s, size_t n) { stdex::html::escape(d, s, n); }).substr(pre.size());
	auto min = run(r, src, pre, [](auto& d, const T* s, size_t n) { stdex::html::escape_min(d, s, n); }).substr(pre.size());
	std::basic_string<T> back, back_min, per_char, o1, o2;
	bool ok = unhtml(enc, back, false), ok_min = unhtml(min, back_min, true);
	VH_CHECK(c, ok && back == src, "html-escape", "%s escaped as %s", show(src).c_str(), show(enc).c_str());
	VH_CHECK(c, ok_min && back_min == src, "html-escape-min", "%s escaped as %s", show(src).c_str(), show(min).c_str());
	for (T ch : src) stdex::html::escape_min(per_char, ch);
	VH_CHECK(c, per_char == min, "html-escape-char", "%s escaped as %s", show(src).c_str(), show(per_char).c_str());
	stdex::html::escape(o1, src);
	stdex::html::escape_min(o2, src);
	VH_CHECK(c, o1 == enc && o2 == min, "html-overload", "%s", show(src).c_str());
	if constexpr (sizeof(T) == sizeof(wchar_t)) {
		VH_CHECK(c, stdex::sgml2str<wchar_t>(enc) == src, "html-round-trip", "%s escaped as %s", show(src).c_str(), show(enc).c_str());
		VH_CHECK(c, stdex::sgml2str<wchar_t>(min) == src, "html-round-trip-min", "%s escaped as %s", show(src).c_str(), show(min).c_str());
	}
	if (src.size() > 1) c.sig(hash_bytes(src.data(), src.size() * sizeof(T)));
}
VH_GROUP(html_round, 60000, 600000, 5000)
{
	if (c.index & 1) html<char>(c);
	else html<wchar_t>(c);
}

// Arrays, with and without a terminator inside of them
template <class T, size_t N> static void arr(Case& c)
{
	auto& r = c.rng;
	using S = std::basic_string<T>;
	T a[N];
	for (auto& ch : a) ch = r.chance(1, 3) ? static_cast<T>(r.one({ '&', '<', '>', '"', '\'', ';', '%', '+', '\\', ' ', '(', '\n' })) : static_cast<T>(r.range(0x21, 0x7e));
	size_t len = r.chance(1, 3) ? N : static_cast<size_t>(r.below(N));
	if (len < N) a[len] = 0;
	const T (&x)[N] = a;
	const S s(a, len);
	auto same = [&](const char* what, auto fn) {
		S d1(1, T('q')), d2(1, T('q'));
		fn(d1, x); fn(d2, s);
		VH_CHECK(c, d1 == d2, "array", "%s: array with %s gives %s, string gives %s", what, show(s).c_str(), show(d1).c_str(), show(d2).c_str());
	};
	same("escape", [](S& d, auto& v) { stdex::html::escape(d, v); });
	same("escape_min", [](S& d, auto& v) { stdex::html::escape_min(d, v); });
	same("css_escape", [](S& d, auto& v) { stdex::html::css_escape(d, v); });
	same("css_unescape", [](S& d, auto& v) { stdex::html::css_unescape(d, v); });
	if constexpr (sizeof(T) == 1) {
		same("url_escape", [](S& d, auto& v) { stdex::html::url_escape(d, v); });
		same("url_unescape", [](S& d, auto& v) { stdex::html::url_unescape(d, v); });
	}
	c.sig(hash_bytes(s.data(), s.size() * sizeof(T)));
}
VH_GROUP(arrays, 20000, 200000, 5000)
{
	switch (c.index & 3) {
	case 0: arr<char, 12>(c); break;
	case 1: arr<wchar_t, 12>(c); break;
	case 2: arr<char, 3>(c); break;
	default: arr<wchar_t, 5>(c);
	}
}

VH_MAIN
