// E04: Unicode conversion against an independent encoder and validator.
#include "vh.hpp"
#include <cerrno>
#include <system_error>
#include <langinfo.h>
#include <clocale>
#include <climits>
#include <cwchar>
#include <stdex/compat.hpp>
#include <stdex/unicode.hpp>

using namespace vh;
using cs = stdex::charset_id;

static void put8(std::string& s, uint32_t c)
{
	if (c < 0x80) s += static_cast<char>(c);
	else if (c < 0x800) { s += static_cast<char>(0xc0 | c >> 6); s += static_cast<char>(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += static_cast<char>(0xe0 | c >> 12); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
	else { s += static_cast<char>(0xf0 | c >> 18); s += static_cast<char>(0x80 | (c >> 12 & 63)); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
}
static void put16(std::u16string& s, uint32_t c)
{
	if (c < 0x10000) s += static_cast<char16_t>(c);
	else { s += static_cast<char16_t>(0xd7c0 + (c >> 10)); s += static_cast<char16_t>(0xdc00 | (c & 0x3ff)); }
}
struct Text { std::u32string u32; std::string u8; std::u16string u16; std::wstring w; };
static Text text(Rng& r, size_t n, unsigned mode)
{
	Text t;
	for (size_t i = 0; i < n; i++) {
		uint32_t c;
		switch (mode == 0 ? r.below(6) : mode) {
		case 1: c = 1 + static_cast<uint32_t>(r.below(0x7f)); break;
		case 2: c = 0x80 + static_cast<uint32_t>(r.below(0x780)); break;
		case 3: c = 0x800 + static_cast<uint32_t>(r.below(0xd000)); break;
		case 4: c = 0x10000 + static_cast<uint32_t>(r.below(0x100000)); break;
		case 5: { static const uint32_t e[] = { 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfeff, 0x10000, 0x10ffff, 0xa0, 0x2028 }; c = e[r.below(sizeof(e) / 4)]; break; }
		default: c = 'a' + static_cast<uint32_t>(r.below(26));
		}
		if (c >= 0xd800 && c < 0xe000) c = 0xe000;
		t.u32 += static_cast<char32_t>(c);
		t.w += static_cast<wchar_t>(c);
		put8(t.u8, c);
		put16(t.u16, c);
	}
	return t;
}
// Lengths around the internal buffer of 1024 bytes in every unit size
static size_t length(Rng& r)
{
	static const size_t e[] = { 256, 341, 512, 1024, 2048, 170, 128 };
	return r.chance(1, 3) ? e[r.below(7)] * (1 + r.below(2)) + r.below(5) - 2 : r.size(1500);
}

template <class F, class T>
static void convert(Case& c, stdex::charset_encoder<F, T>& e, const std::basic_string<F>& src, const std::basic_string<T>& want, const char* what)
{
	auto& r = c.rng;
	std::basic_string<T> dst(r.below(4), static_cast<T>('p')), w;
	unsigned how = static_cast<unsigned>(r.below(9));
	switch (how) {
	case 0: case 1: case 2: { // Exact range without terminator
		Exact<F> x(src);
		if (how == 0) { w = dst + want; e.strcat(dst, x.data(), src.size()); }
		else if (how == 1) { w = want; e.strcpy(dst, x.data(), src.size()); }
		else { w = want; dst = e.convert(x.data(), src.size()); }
		break;
	}
	case 3: case 4: case 5: { // Terminated, nothing after the terminator to be read
		Exact<F> x(src.c_str(), src.size() + 1);
		size_t n = r.coin() ? SIZE_MAX : src.size() + 1 + r.below(10);
		if (how == 3) { w = dst + want; if (r.coin()) e.strcat(dst, x.data(), n); else e.strcat(dst, x.data()); }
		else if (how == 4) { w = want; if (r.coin()) e.strcpy(dst, x.data(), n); else e.strcpy(dst, x.data()); }
		else { w = want; dst = r.coin() ? e.convert(x.data(), n) : e.convert(x.data()); }
		break;
	}
	default: {
		Exact<F> x(src);
		std::basic_string_view<F> v(x.data(), src.size());
		if (how == 6) { w = dst + want; e.strcat(dst, v); }
		else if (how == 7) { w = want; e.strcpy(dst, v); }
		else { w = want; dst = e.convert(v); }
	}
	}
	VH_CHECK(c, dst == w, "convert", "%s, call %u: %s gives %s, %s expected", what, how, show(src, 60).c_str(), show(dst, 60).c_str(), show(w, 60).c_str());
}

struct Encoders
{
	stdex::charset_encoder<char, char16_t> e8_16{ cs::utf8, cs::utf16 };
	stdex::charset_encoder<char, char32_t> e8_32{ cs::utf8, cs::utf32 };
	stdex::charset_encoder<char, wchar_t> e8_w{ cs::utf8, stdex::wchar_t_charset };
	stdex::charset_encoder<char16_t, char> e16_8{ cs::utf16, cs::utf8 };
	stdex::charset_encoder<char16_t, char32_t> e16_32{ cs::utf16, cs::utf32 };
	stdex::charset_encoder<char32_t, char> e32_8{ cs::utf32, cs::utf8 };
	stdex::charset_encoder<char32_t, char16_t> e32_16{ cs::utf32, cs::utf16 };
	stdex::charset_encoder<wchar_t, char> ew_8{ stdex::wchar_t_charset, cs::utf8 };
	stdex::charset_encoder<char, char> e8_8{ cs::utf8, cs::utf8 };
};

VH_GROUP(valid, 3000, 100000, 1000)
{
	auto& r = c.rng;
	static Encoders e;
	VH_CHECK(c, e.e8_16.from_encoding() == cs::utf8, "encoding", "from_encoding()");
	for (int i = 0; i < 3; i++) {
		auto t = text(r, length(r), static_cast<unsigned>(r.below(6)));
		switch (r.below(9)) {
		case 0: convert(c, e.e8_16, t.u8, t.u16, "UTF-8 to UTF-16"); break;
		case 1: convert(c, e.e8_32, t.u8, t.u32, "UTF-8 to UTF-32"); break;
		case 2: convert(c, e.e8_w, t.u8, t.w, "UTF-8 to wchar_t"); break;
		case 3: convert(c, e.e16_8, t.u16, t.u8, "UTF-16 to UTF-8"); break;
		case 4: convert(c, e.e16_32, t.u16, t.u32, "UTF-16 to UTF-32"); break;
		case 5: convert(c, e.e32_8, t.u32, t.u8, "UTF-32 to UTF-8"); break;
		case 6: convert(c, e.e32_16, t.u32, t.u16, "UTF-32 to UTF-16"); break;
		case 7: convert(c, e.ew_8, t.w, t.u8, "wchar_t to UTF-8"); break;
		default: convert(c, e.e8_8, t.u8, t.u8, "UTF-8 to UTF-8"); break;
		}
		// The functions without an object
		if (r.chance(1, 3)) {
			Exact<char> x(t.u8);
			Exact<wchar_t> y(t.w);
			auto w = stdex::str2wstr(x.data(), t.u8.size(), cs::utf8);
			VH_CHECK(c, w == t.w, "str2wstr", "%s gives %s", show(t.u8, 60).c_str(), show(w, 60).c_str());
			auto s = stdex::wstr2str(y.data(), t.w.size(), cs::utf8);
			VH_CHECK(c, s == t.u8, "wstr2str", "%s gives %s", show(t.w, 60).c_str(), show(s, 60).c_str());
			VH_CHECK(c, stdex::str2wstr(t.u8.c_str(), cs::utf8) == t.w && stdex::str2wstr(std::string_view(t.u8), cs::utf8) == t.w, "str2wstr", "terminated or view");
			VH_CHECK(c, stdex::wstr2str(t.w.c_str(), cs::utf8) == t.u8 && stdex::wstr2str(std::wstring_view(t.w), cs::utf8) == t.u8, "wstr2str", "terminated or view");
			std::wstring wd = L"x";
			stdex::strcat(wd, x.data(), t.u8.size(), cs::utf8);
			VH_CHECK(c, wd == L"x" + t.w, "strcat", "appended differs");
			stdex::strcpy(wd, x.data(), t.u8.size(), cs::utf8);
			VH_CHECK(c, wd == t.w, "strcpy", "assigned differs");
			std::string sd = "x";
			stdex::strcat(sd, y.data(), t.w.size(), cs::utf8);
			VH_CHECK(c, sd == "x" + t.u8, "strcat", "appended differs");
			stdex::strcpy(sd, y.data(), t.w.size(), cs::utf8);
			VH_CHECK(c, sd == t.u8, "strcpy", "assigned differs");
			std::string_view xv(x.data(), t.u8.size());
			std::wstring_view yv(y.data(), t.w.size());
			stdex::strcat(wd, xv, cs::utf8);
			VH_CHECK(c, wd == t.w + t.w, "strcat", "appended view differs");
			stdex::strcpy(wd, xv, cs::utf8);
			VH_CHECK(c, wd == t.w, "strcpy", "assigned view differs");
			stdex::strcat(sd, yv, cs::utf8);
			VH_CHECK(c, sd == t.u8 + t.u8, "strcat", "appended view differs");
			stdex::strcpy(sd, yv, cs::utf8);
			VH_CHECK(c, sd == t.u8, "strcpy", "assigned view differs");
			stdex::str2wstr(wd, x.data(), t.u8.size(), cs::utf8);
			stdex::str2wstr(wd, xv, cs::utf8);
			VH_CHECK(c, wd == t.w + t.w + t.w, "str2wstr", "appended differs");
			stdex::wstr2str(sd, y.data(), t.w.size(), cs::utf8);
			stdex::wstr2str(sd, yv, cs::utf8);
			VH_CHECK(c, sd == t.u8 + t.u8 + t.u8, "wstr2str", "appended differs");
			// Up to the terminator or the limit, whichever comes first
			size_t more = t.u8.size() + 1 + r.below(9), morew = t.w.size() + 1 + r.below(9);
			Exact<char> xz(t.u8 + '\0');
			Exact<wchar_t> yz(t.w + L'\0');
			wd = L"x"; stdex::strcat(wd, xz.data(), r.coin() ? SIZE_MAX : more, cs::utf8);
			sd = "x"; stdex::strcat(sd, yz.data(), r.coin() ? SIZE_MAX : morew, cs::utf8);
			VH_CHECK(c, wd == L"x" + t.w && sd == "x" + t.u8, "strcat", "up to the terminator differs");
			VH_CHECK(c, stdex::str2wstr(xz.data(), more, cs::utf8) == t.w && stdex::wstr2str(yz.data(), morew, cs::utf8) == t.u8, "str2wstr", "up to the terminator differs");
		}
		if (c.failed) return;
		c.count("characters", t.u32.size());
		if (t.u32.size() > 1) c.sig(hash_str(t.u8));
	}
}

// Validators. -1: valid; otherwise the position of what is wrong.
static long bad8(const std::string& s)
{
	for (size_t i = 0; i < s.size();) {
		uint8_t b = static_cast<uint8_t>(s[i]);
		size_t n = b < 0x80 ? 1 : b >= 0xc2 && b < 0xe0 ? 2 : b >= 0xe0 && b < 0xf0 ? 3 : b >= 0xf0 && b < 0xf5 ? 4 : 0;
		if (!n || i + n > s.size()) return static_cast<long>(i);
		uint32_t c = n == 1 ? b : b & (0xff >> (n + 1));
		for (size_t k = 1; k < n; k++) {
			if ((s[i + k] & 0xc0) != 0x80) return static_cast<long>(i);
			c = c << 6 | (s[i + k] & 63);
		}
		if ((n == 3 && c < 0x800) || (n == 4 && c < 0x10000) || c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) return static_cast<long>(i);
		i += n;
	}
	return -1;
}
static long bad16(const std::u16string& s)
{
	for (size_t i = 0; i < s.size(); i++) {
		if ((s[i] & 0xfc00) == 0xd800) { if (i + 1 >= s.size() || (s[i + 1] & 0xfc00) != 0xdc00) return static_cast<long>(i); i++; }
		else if ((s[i] & 0xfc00) == 0xdc00) return static_cast<long>(i);
	}
	return -1;
}
static long bad32(const std::u32string& s)
{
	for (size_t i = 0; i < s.size(); i++) if (s[i] > 0x10ffff || (s[i] >= 0xd800 && s[i] < 0xe000)) return static_cast<long>(i);
	return -1;
}

template <class F, class T>
static void ill(Case& c, stdex::charset_encoder<F, T>& e, const std::basic_string<F>& src, bool bad, const char* what)
{
	std::basic_string<T> dst;
	bool thrown = false;
	Exact<F> x(src);
	try { e.strcat(dst, x.data(), src.size()); }
	catch (const std::system_error&) { thrown = true; }
	VH_CHECK(c, !bad || thrown, "ill-formed-accepted", "%s: %s gives %s", what, show(src, 80).c_str(), show(dst, 80).c_str());
	VH_CHECK(c, bad || !thrown, "well-formed-rejected", "%s: %s", what, show(src, 80).c_str());
}

// Damaged text, then good text through the same object.
VH_GROUP(ill_formed, 6000, 200000, 2000)
{
	auto& r = c.rng;
	static Encoders e;
	auto t = text(r, r.size(1200), static_cast<unsigned>(r.below(6)));
	auto damage = [&](auto& s, auto mk) {
		for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(3)); i < n; i++) {
			if (s.empty()) { s += mk(); continue; }
			size_t at = r.below(s.size());
			switch (r.below(5)) {
			case 0: s[at] = mk(); break;
			case 1: s.insert(at, 1, mk()); break;
			case 2: s.erase(at, 1); break;
			case 3: s.resize(at); s += mk(); break;
			default: s.resize(s.size() - std::min<size_t>(s.size(), r.below(4)));
			}
		}
		for (auto& ch : s) if (!ch) ch = 'a';
	};
	auto g = text(r, r.size(40), 0);
	switch (r.below(3)) {
	case 0: {
		damage(t.u8, [&] { return static_cast<char>(r.coin() ? r.next() : 0x80 + r.below(0x80)); });
		bool bad = bad8(t.u8) >= 0;
		if (r.coin()) { ill(c, e.e8_32, t.u8, bad, "UTF-8 to UTF-32"); convert(c, e.e8_32, g.u8, g.u32, "after a failure"); }
		else { ill(c, e.e8_16, t.u8, bad, "UTF-8 to UTF-16"); convert(c, e.e8_16, g.u8, g.u16, "after a failure"); }
		c.count(bad ? "bad" : "good");
		c.sig(hash_str(t.u8));
		break;
	}
	case 1: {
		damage(t.u16, [&] { return static_cast<char16_t>(r.chance(1, 4) ? r.next() : 0xd800 + r.below(0x800)); });
		bool bad = bad16(t.u16) >= 0;
		if (r.coin()) { ill(c, e.e16_32, t.u16, bad, "UTF-16 to UTF-32"); convert(c, e.e16_32, g.u16, g.u32, "after a failure"); }
		else { ill(c, e.e16_8, t.u16, bad, "UTF-16 to UTF-8"); convert(c, e.e16_8, g.u16, g.u8, "after a failure"); }
		c.count(bad ? "bad" : "good");
		c.sig(hash_bytes(t.u16.data(), t.u16.size() * 2));
		break;
	}
	default: {
		damage(t.u32, [&] { return static_cast<char32_t>(r.coin() ? r.next() : r.coin() ? 0xd800 + r.below(0x800) : 0x10fff0 + r.below(0x20)); });
		bool bad = bad32(t.u32) >= 0;
		if (r.coin()) { ill(c, e.e32_16, t.u32, bad, "UTF-32 to UTF-16"); convert(c, e.e32_16, g.u32, g.u16, "after a failure"); }
		else { ill(c, e.e32_8, t.u32, bad, "UTF-32 to UTF-8"); convert(c, e.e32_8, g.u32, g.u8, "after a failure"); }
		c.count(bad ? "bad" : "good");
		c.sig(hash_bytes(t.u32.data(), t.u32.size() * 4));
	}
	}
}

// UTF-7, decoded independently (RFC 2152).
static bool dec7(const std::string& s, std::u16string& out)
{
	static const std::string abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	for (size_t i = 0; i < s.size();) {
		if (s[i] != '+') { out += static_cast<char16_t>(s[i++]); continue; }
		if (++i < s.size() && s[i] == '-') { out += u'+'; i++; continue; }
		uint32_t acc = 0;
		unsigned bits = 0;
		for (; i < s.size(); i++) {
			auto p = abc.find(s[i]);
			if (p == std::string::npos) break;
			acc = acc << 6 | static_cast<uint32_t>(p);
			bits += 6;
			if (bits >= 16) { bits -= 16; out += static_cast<char16_t>(acc >> bits); acc &= (1u << bits) - 1; }
		}
		if (bits >= 6 || acc) return false;
		if (i < s.size() && s[i] == '-') i++;
	}
	return true;
}
VH_GROUP(utf7, 3000, 60000, 1000)
{
	auto& r = c.rng;
	static stdex::charset_encoder<char, char> to{ cs::utf8, cs::utf7 }, from{ cs::utf7, cs::utf8 };
	static stdex::charset_encoder<char16_t, char> to16{ cs::utf16, cs::utf7 };
	for (int i = 0; i < 2; i++) {
		auto t = text(r, length(r) / 2, static_cast<unsigned>(r.below(6)));
		// UTF-7 has no direct form of some ASCII characters, all may be encoded
		std::string z = r.coin() ? to.convert(t.u8.data(), t.u8.size()) : to16.convert(t.u16.data(), t.u16.size());
		std::u16string back;
		bool ok = dec7(z, back);
		VH_CHECK(c, ok && back == t.u16, "utf7", "%s gives %s", show(t.u8, 100).c_str(), show(z, 200).c_str());
		convert(c, from, z, t.u8, "UTF-7 to UTF-8");
		if (r.chance(1, 3)) {
			// A failure within a shift sequence
			std::string bad = z.substr(0, r.below(z.size() + 1)) + "+AOk\xff";
			try { from.convert(bad.data(), bad.size()); c.fail("ill-formed-accepted", "UTF-7 with a byte over 127"); }
			catch (const std::system_error&) {}
			convert(c, from, std::string("abc/-"), std::string("abc/-"), "after a failure in a shift sequence");
			std::string b8 = t.u8 + "\xc3";
			try { to.convert(b8.data(), b8.size()); c.fail("ill-formed-accepted", "UTF-8 cut in a character"); }
			catch (const std::system_error&) {}
		}
		if (c.failed) return;
		if (t.u8.size() > 2) c.sig(hash_str(z));
	}
}

// The charset of the system is the one of the locale, whichever that is. The C library converts for comparison.
VH_GROUP(system, 2000, 20000, 300)
{
	auto& r = c.rng;
	static const char* const locales[] = { "C", "C.UTF-8", "sl_SI.UTF-8", "sl_SI", "de_DE", "de_DE@euro", "el_GR", "ru_RU", "ru_RU.KOI8-R", "bg_BG", "uk_UA", "ja_JP.EUC-JP", "ja_JP.eucjp", "zh_CN", "zh_CN.GB18030", "zh_CN.gb18030", "zh_TW", "zh_HK", "ko_KR.euckr", "th_TH", "he_IL", "tr_TR", "lt_LT", "ka_GE", "hy_AM.armscii8", "kk_KZ", "tg_TJ", "ar_EG" };
	const char* l = r.pick(std::vector<const char*>(std::begin(locales), std::end(locales)));
	if (!setlocale(LC_CTYPE, l)) { c.count("missing"); return; }
	std::string name = nl_langinfo(CODESET);
	auto want = name == "UTF-8" ? cs::utf8 : name == "CP1251" ? cs::windows1251 : cs::system;
	VH_CHECK(c, (stdex::charset_encoder<char, wchar_t>::system_charset()) == want, "system-charset", "%s: %d", name.c_str(), static_cast<int>(stdex::charset_encoder<char, wchar_t>::system_charset()));
	// Text the locale has
	std::wstring w;
	std::string s;
	bool plain = r.chance(1, 6);
	for (size_t n = length(r); n; --n) {
		auto ch = static_cast<wchar_t>(plain || r.chance(1, 3) ? 1 + r.below(0x7f) : r.coin() ? 0xa0 + r.below(0x600) : r.coin() ? 0x3040 + r.below(0x60) : 0x4e00 + r.below(0x5000));
		char buf[MB_LEN_MAX];
		std::mbstate_t st{};
		auto k = wcrtomb(buf, ch, &st);
		wchar_t back = 0;
		if (k == static_cast<size_t>(-1) || !k || mbtowc(&back, buf, k) != static_cast<int>(k) || back != ch) continue; // Not there, or a look-alike of another one
		w += ch;
		s.append(buf, k);
	}
	stdex::charset_encoder<char, wchar_t> d(cs::system, stdex::wchar_t_charset);
	stdex::charset_encoder<wchar_t, char> e(stdex::wchar_t_charset, cs::system);
	setlocale(LC_CTYPE, "C");
	for (int i = 0; i < 2; i++) {
		convert(c, d, s, w, l);
		convert(c, e, w, s, l);
		if (c.failed) return;
		if (name == "ANSI_X3.4-1968") {
			std::string bad = s + "\xe9";
			bool thrown = false;
			try { d.convert(bad.data(), bad.size()); } catch (const std::system_error&) { thrown = true; }
			VH_CHECK(c, thrown, "ill-formed-accepted", "byte that is not ASCII");
		}
	}
	c.count(name.c_str());
	if (s.size() > 2) c.sig(hash_str(s, hash_str(name)));
}

// Single-byte code pages: there and back for every byte, ASCII is itself.
VH_GROUP(code_pages, 600, 5000, 200)
{
	auto& r = c.rng;
	cs p = r.one({ cs::windows1250, cs::windows1251, cs::windows1252 });
	stdex::charset_encoder<char, wchar_t> d(p, stdex::wchar_t_charset);
	stdex::charset_encoder<wchar_t, char> e(stdex::wchar_t_charset, p);
	std::string s;
	for (size_t i = 0, n = length(r); i < n; i++) {
		char ch = static_cast<char>(1 + r.below(255));
		try { d.convert(&ch, 1); s += ch; } catch (const std::system_error&) { VH_CHECK(c, (ch & 0x80) != 0, "code-page-ascii", "ASCII character rejected"); }
	}
	auto w = d.convert(s.data(), s.size());
	VH_CHECK(c, w.size() == s.size(), "code-page-count", "%zu characters from %zu bytes", w.size(), s.size());
	for (size_t i = 0; i < w.size() && i < s.size(); i++) if (!(s[i] & 0x80)) VH_CHECK(c, w[i] == static_cast<wchar_t>(s[i]), "code-page-ascii", "%x gives %x", s[i], static_cast<unsigned>(w[i]));
	convert(c, e, w, s, "back to the code page");
	// The euro sign tells the three apart from Latin and from each other with the letters around it
	std::wstring euro = L"\x20ac";
	VH_CHECK(c, e.convert(euro.data(), 1) == (p == cs::windows1251 ? "\x88" : "\x80"), "code-page-euro", "euro sign");
	bool thrown = false;
	std::wstring han = L"a\x4e00";
	try { e.convert(han.data(), han.size()); } catch (const std::system_error&) { thrown = true; }
	VH_CHECK(c, thrown, "code-page-unmappable", "a character outside of the code page was not rejected");
	convert(c, e, w, s, "after a failure");
	c.sig(hash_str(s));
}

VH_GROUP(names, 2000, 20000, 30)
{
	auto& r = c.rng;
	static const std::pair<const char*, cs> names[] = {
		{ "UNICODE-1-1-UTF-7", cs::utf7 }, { "UTF-7", cs::utf7 }, { "csUnicode11UTF7", cs::utf7 }, { "UTF-8", cs::utf8 }, { "UTF8", cs::utf8 }, { "UTF-16", cs::utf16 }, { "UTF-16LE", cs::utf16 },
		{ "UTF-32", cs::utf32 }, { "UTF-32LE", cs::utf32 }, { "CP1250", cs::windows1250 }, { "MS-EE", cs::windows1250 }, { "windows-1250", cs::windows1250 }, { "CP1251", cs::windows1251 },
		{ "MS-CYRL", cs::windows1251 }, { "windows-1251", cs::windows1251 }, { "CP1252", cs::windows1252 }, { "MS-ANSI", cs::windows1252 }, { "windows-1252", cs::windows1252 } };
	auto n = names[r.below(sizeof(names) / sizeof(names[0]))];
	std::string s = n.first;
	for (auto& ch : s) if (r.coin()) ch = static_cast<char>(r.coin() ? toupper(ch) : tolower(ch));
	VH_CHECK(c, stdex::charset_from_name(s.c_str()) == n.second && stdex::charset_from_name(s) == n.second, "charset-name", "%s gives %d, %d expected", s.c_str(), (int)stdex::charset_from_name(s), (int)n.second);
	std::string u = s;
	if (r.coin()) u += "x"; else u[r.below(u.size())] = '_';
	VH_CHECK(c, stdex::charset_from_name(u) == cs::system, "charset-name-unknown", "%s gives %d", u.c_str(), (int)stdex::charset_from_name(u));
	c.sig(s);
}

VH_MAIN
