// C06: text, coding and arithmetic used from several threads, each with its own data.
#include "apart.hpp"
#include <cmath>
#include <stdex/compat.hpp>
#include <stdex/base64.hpp>
#include <stdex/chrono.hpp>
#include <stdex/endian.hpp>
#include <stdex/hash.hpp>
#include <stdex/hex.hpp>
#include <stdex/html.hpp>
#include <stdex/interval.hpp>
#include <stdex/langid.hpp>
#include <stdex/locale.hpp>
#include <stdex/mapping.hpp>
#include <stdex/math.hpp>
#include <stdex/sgml.hpp>
#include <stdex/string.hpp>
#include <stdex/sys_info.hpp>
#include <stdex/unicode.hpp>
#include <stdex/uuid.hpp>
#include <stdex/zlib.hpp>

using namespace vh;
using apart::Sum;

template <class T> static std::basic_string<T> text(Rng& r, size_t max, const char* rich = "")
{
	std::basic_string<T> s;
	size_t m = ::strlen(rich);
	for (size_t n = r.size(max); n; --n) {
		if (m && r.chance(1, 3)) s += static_cast<T>(static_cast<unsigned char>(rich[r.below(m)]));
		else switch (r.below(6)) {
			case 0: s += static_cast<T>(sizeof(T) > 1 ? 0xa0 + r.below(0x300) : 0x20 + r.below(0x5f)); break;
			case 1: s += static_cast<T>(sizeof(T) > 1 ? 0x2000 + r.below(0x700) : 'a' + r.below(26)); break;
			default: s += static_cast<T>(0x20 + r.below(0x5f));
		}
	}
	return s;
}
static std::string utf8(Rng& r, size_t max)
{
	std::string s;
	for (size_t n = r.size(max); n; --n) {
		unsigned v = static_cast<unsigned>(r.chance(1, 2) ? 0x20 + r.below(0x5f) : r.coin() ? 0xa0 + r.below(0x700) : r.coin() ? 0x800 + r.below(0xc000) : 0x10000 + r.below(0x100000));
		if (v < 0x80) s += static_cast<char>(v);
		else if (v < 0x800) { s += static_cast<char>(0xc0 | v >> 6); s += static_cast<char>(0x80 | (v & 63)); }
		else if (v < 0x10000) { s += static_cast<char>(0xe0 | v >> 12); s += static_cast<char>(0x80 | (v >> 6 & 63)); s += static_cast<char>(0x80 | (v & 63)); }
		else { s += static_cast<char>(0xf0 | v >> 18); s += static_cast<char>(0x80 | (v >> 12 & 63)); s += static_cast<char>(0x80 | (v >> 6 & 63)); s += static_cast<char>(0x80 | (v & 63)); }
	}
	return s;
}
static std::string entities(Rng& r, size_t max)
{
	std::string s;
	for (size_t n = r.size(max); n; --n)
		switch (r.below(6)) {
		case 0: s += fmt("&#%u;", static_cast<unsigned>(r.below(0x20000))); break;
		case 1: s += fmt("&#x%x;", static_cast<unsigned>(r.below(0x20000))); break;
		case 2: s += r.one({ "&amp;", "&lt;", "&Scaron;", "&euro;", "&NotEqualTilde;", "&nope;", "&fjlig;", "&zwnj;", "&ccaron;" }); break;
		default: s += static_cast<char>(0x20 + r.below(0x5f));
		}
	return s;
}

template <class T> static uint64_t sgml_in(Rng& r)
{
	Sum z;
	auto s = entities(r, 60);
	z.str(stdex::sgml2str<T>(s.data(), s.size(), r.coin() ? stdex::sgml_c | stdex::sgml_full : 0));
	stdex::mapping_vector<size_t> m;
	std::basic_string<T> d;
	stdex::sgml2strcat(d, s.data(), s.size(), 0, stdex::mapping<size_t>(3, 4), &m);
	z.str(d);
	for (auto& x : m) z.num(x.from), z.num(x.to);
	T buf[40];
	buf[0] = 0;
	try { z.num(stdex::sgml2strcat(buf, 40, s.data(), s.size())); } catch (const std::invalid_argument& e) { z.problem(e); }
	z.num(stdex::sgmlerr(s.data(), s.size()));
	return z.h;
}
APART(sgml_decode) { return r.coin() ? sgml_in<wchar_t>(r) : sgml_in<char16_t>(r); }
template <class T> static uint64_t sgml_out(Rng& r)
{
	Sum z;
	auto s = text<T>(r, 60, "&<>\"'$#\xe9\xa0");
	size_t what = r.next() & (stdex::sgml_amp | stdex::sgml_lt_gt | stdex::sgml_quot | stdex::sgml_apos | stdex::sgml_dollar | stdex::sgml_percnt | stdex::sgml_num | stdex::sgml_bsol);
	z.str(stdex::str2sgml(s.data(), s.size(), what));
	char buf[40];
	buf[0] = 0;
	try { z.num(stdex::str2sgmlcat(buf, 40, s.data(), s.size(), what)); } catch (const std::invalid_argument& e) { z.problem(e); }
	return z.h;
}
APART(sgml_encode) { return r.coin() ? sgml_out<wchar_t>(r) : sgml_out<char16_t>(r); }

APART(base64)
{
	Sum z;
	auto b = r.bytes(r.size(300));
	stdex::base64_enc e;
	std::string s;
	size_t k = r.below(b.size() + 1);
	apart::insist([&] {
		s.clear(), e.clear();
		e.encode(s, b.data(), k, false);
		e.encode(s, b.data() + k, b.size() - k);
	});
	z.str(s);
	stdex::base64_dec d;
	std::vector<uint8_t> o;
	bool last;
	size_t step = 1 + r.below(20);
	apart::insist([&] {
		o.clear(), d.clear();
		for (size_t i = 0; i < s.size();) {
			size_t n = std::min<size_t>(s.size() - i, step);
			d.decode(o, last, s.data() + i, n);
			i += n;
		}
	});
	z.vec(o);
	return z.h;
}
APART(hex)
{
	Sum z;
	auto b = r.bytes(r.size(200));
	stdex::hex_enc e;
	std::string s;
	e.encode(s, b.data(), b.size());
	z.str(s);
	stdex::hex_dec d;
	std::vector<uint8_t> o;
	bool last;
	size_t k = r.below(s.size() + 1);
	apart::insist([&] {
		o.clear(), d.clear();
		d.decode(o, last, s.data(), k);
		d.decode(o, last, s.data() + k, s.size() - k);
	});
	z.vec(o);
	return z.h;
}
template <class H> static void digest(Sum& z, Rng& r)
{
	auto b = r.bytes(r.size(700));
	H h;
	size_t k = r.below(b.size() + 1);
	h.hash(b.data(), k);
	h.hash(b.data() + k, b.size() - k);
	h.finalize();
	auto v = h.data();
	z.raw(&v, h.size());
}
APART(hashes)
{
	Sum z;
	switch (r.below(3)) {
	case 0: digest<stdex::crc32_hash>(z, r); break;
	case 1: digest<stdex::md5_hash>(z, r); break;
	default: digest<stdex::sha1_hash>(z, r);
	}
	return z.h;
}
template <class A, class B> static void recode(Sum& z, stdex::charset_id a, stdex::charset_id b, const std::basic_string<A>& s)
{
	stdex::charset_encoder<A, B> e(a, b);
	stdex::charset_encoder<B, A> d(b, a);
	try {
		std::basic_string<B> o;
		apart::insist([&] { o.clear(), e.strcat(o, s.data(), s.size()); });
		z.raw(o.data(), o.size() * sizeof(B));
		auto back = apart::insist([&] { return d.convert(o.data(), o.size()); });
		z.str(back);
	}
	catch (const std::exception& x) { z.problem(x); }
}
// The C library loads and unloads conversions under a lock ThreadSanitizer does not see: kept loaded.
template <class A, class B> static void keep(stdex::charset_id a, stdex::charset_id b)
{
	static std::vector<std::shared_ptr<void>>& all = *new std::vector<std::shared_ptr<void>>;
	all.push_back(std::make_shared<stdex::charset_encoder<A, B>>(a, b));
	all.push_back(std::make_shared<stdex::charset_encoder<B, A>>(b, a));
}
static int g_kept = [] {
	using cs = stdex::charset_id;
	keep<char, char16_t>(cs::utf8, cs::utf16);
	keep<char, char32_t>(cs::utf8, cs::utf32);
	keep<char, char>(cs::utf8, cs::windows1250);
	keep<char, wchar_t>(cs::utf8, stdex::wchar_t_charset);
	keep<char, char>(cs::utf8, cs::utf7);
	static auto kept_locale = new stdex::locale(LC_ALL, "C.UTF-8");
	(void)kept_locale;
	return 0;
}();
APART(recode)
{
	using cs = stdex::charset_id;
	Sum z;
	auto s = utf8(r, r.chance(1, 4) ? 1500 : 60);
	switch (r.below(5)) {
	case 0: recode<char, char16_t>(z, cs::utf8, cs::utf16, s); break;
	case 1: recode<char, char32_t>(z, cs::utf8, cs::utf32, s); break;
	case 2: recode<char, char>(z, cs::utf8, cs::windows1250, s); break;
	case 3: recode<char, wchar_t>(z, cs::utf8, stdex::wchar_t_charset, s); break;
	default: recode<char, char>(z, cs::utf8, cs::utf7, s);
	}
	return z.h;
}
APART(charset_names)
{
	Sum z;
	for (unsigned i = 0; i < 10; i++) z.num(static_cast<uint64_t>(stdex::charset_from_name(r.one({ "UTF-8", "utf-16", "windows-1250", "UTF-32BE", "x", "UTF-16LE", "US-ASCII", "iso-8859-2", "ansi_x3.4-1968", "" }))));
	return z.h;
}
APART(html_escape)
{
	Sum z;
	auto s = utf8(r, 60);
	std::string o;
	stdex::html::url_escape(o, s.data(), s.size());
	z.str(o);
	std::string b;
	stdex::html::url_unescape(b, o.data(), o.size());
	z.str(b);
	auto w = text<wchar_t>(r, 60, "\\\"'<\n&");
	std::wstring a;
	stdex::html::css_escape(a, w.data(), w.size());
	z.str(a);
	std::wstring c;
	stdex::html::css_unescape(c, a.data(), a.size());
	z.str(c);
	std::wstring h;
	stdex::html::escape(h, w.data(), w.size());
	z.str(h);
	return z.h;
}

template <class T> static uint64_t strings(Rng& r)
{
	Sum z;
	auto a = text<T>(r, 50, "aAbB \t"), b = text<T>(r, r.coin() ? 4 : 50, "aAbB \t");
	if (r.chance(1, 3)) { b = a; if (!b.empty()) b[r.below(b.size())] ^= 0x20; }
	z.num(static_cast<uint64_t>(stdex::strncmp(a.data(), a.size(), b.data(), b.size())));
	z.num(static_cast<uint64_t>(stdex::strnicmp(a.data(), a.size(), b.data(), b.size())));
	z.num(static_cast<uint64_t>(stdex::strrncmp(a.data(), a.size(), b.data(), b.size())));
	z.num(stdex::strnstr(a.data(), a.size(), b.c_str()));
	z.num(stdex::strnistr(a.data(), a.size(), b.c_str()));
	z.num(stdex::strnchr(a.data(), a.size(), T('a')));
	z.num(stdex::strnichr(a.data(), a.size(), T('a')));
	z.num(stdex::isblank(a.data(), a.size()) | stdex::is7bit(a.data(), a.size()) << 1);
	auto t = a;
	stdex::trim(t);
	z.str(t);
	t = a;
	stdex::strlwr(t);
	z.str(t);
	stdex::strupr(t);
	z.str(t);
	std::basic_string<T> o;
	auto crlf = text<T>(r, 40, "\r\n");
	stdex::crlf2nl(o, crlf.c_str());
	z.str(o);
	T buf[64] = {};
	z.num(stdex::strncpy(buf, 64, a.data(), a.size()));
	z.num(stdex::strncat(buf, 64, b.data(), b.size()));
	z.raw(buf, stdex::strnlen(buf, 64) * sizeof(T));
	return z.h;
}
APART(strings) { return r.coin() ? strings<char>(r) : strings<wchar_t>(r); }
template <class T> static uint64_t by_locale(Rng& r)
{
	Sum z;
	const std::locale& l = std::locale::classic();
	auto a = text<T>(r, 40, "aAbB \t"), b = text<T>(r, 40, "aAbB \t");
	if (r.chance(1, 3)) { b = a; if (!b.empty()) b[r.below(b.size())] ^= 0x20; }
	z.num(static_cast<uint64_t>(stdex::strnicmp(a.data(), a.size(), b.data(), b.size(), l)));
	z.num(static_cast<uint64_t>(stdex::strncoll(a.data(), a.size(), b.data(), b.size(), l)) & 1);
	z.num(stdex::strnistr(a.data(), a.size(), b.c_str(), l));
	auto t = a;
	stdex::strlwr(t, l);
	z.str(t);
	stdex::strupr(t, l);
	z.str(t);
	stdex::trim(t, l);
	z.str(t);
	z.num(stdex::isblank(a.data(), a.size(), l));
	return z.h;
}
APART(strings_by_locale) { return r.coin() ? by_locale<char>(r) : by_locale<wchar_t>(r); }
template <class T> static uint64_t numbers(Rng& r)
{
	Sum z;
	auto d = fmt(r.one({ " %lld,", "+%lld", "%llx", "0x%llx.", "0%llo " }), static_cast<long long>(r.next() >> r.below(64)));
	std::basic_string<T> s(d.begin(), d.end());
	size_t end;
	int radix = r.one({ 0, 10, 16, 8, 36 });
	z.num(static_cast<uint64_t>(stdex::strto64(s.data(), s.size(), &end, radix))), z.num(end);
	z.num(static_cast<uint64_t>(stdex::strtou32(s.data(), s.size(), &end, radix))), z.num(end);
	z.num(static_cast<uint64_t>(stdex::strto8(s.data(), s.size(), &end, radix))), z.num(end);
	auto f = fmt("%.*g", static_cast<int>(1 + r.below(20)), std::ldexp(static_cast<double>(r.next()), static_cast<int>(r.range(-80, 80))));
	std::basic_string<T> w(f.begin(), f.end());
	double v = stdex::strtod(w.data(), w.size(), &end, stdex::locale_C.get());
	z.raw(&v, 8), z.num(end);
	return z.h;
}
APART(numbers) { return r.coin() ? numbers<char>(r) : numbers<wchar_t>(r); }
APART(formatted)
{
	Sum z;
	stdex::locale l(LC_ALL, r.coin() ? "C" : "C.UTF-8");
	size_t n = r.chance(1, 4) ? static_cast<size_t>(r.below(6000)) : r.below(300);
	locale_t L = r.coin() ? l.get() : nullptr;
	if (r.coin()) {
		std::string body(n, static_cast<char>('a' + r.below(26)));
		z.str(stdex::sprintf("%s|%d|%5.2f", L, body.c_str(), static_cast<int>(r.next()), static_cast<double>(r.below(100000)) / 7));
		std::string s = "p";
		z.num(stdex::appendf(s, "%*d", L, static_cast<int>(n), 7));
		z.str(s);
	}
	else {
		std::wstring body(n, static_cast<wchar_t>('a' + r.below(26)));
		z.str(stdex::sprintf(L"%ls|%d|%5.2f", L, body.c_str(), static_cast<int>(r.next()), static_cast<double>(r.below(100000)) / 7));
		std::wstring s = L"p";
		z.num(stdex::appendf(s, L"%*d", L, static_cast<int>(n), 7));
		z.str(s);
	}
	return z.h;
}
APART(dates)
{
	using namespace stdex::chrono;
	Sum z;
	auto d = aosn_date::from_dmy(static_cast<uint8_t>(1 + r.below(28)), static_cast<uint8_t>(1 + r.below(12)), static_cast<int32_t>(r.range(-3000, 4000)));
	uint8_t day, month;
	int32_t year;
	aosn_date::to_dmy(d, &day, &month, &year);
	z.num(day), z.num(month), z.num(static_cast<uint64_t>(year));
	auto t = aosn_timestamp::from_date(d) + aosn_timestamp::duration(static_cast<aosn_timestamp::rep>(r.below(86400000)));
	struct tm tm {};
	aosn_timestamp::to_system(t, tm);
	z.num(static_cast<uint64_t>(tm.tm_year)), z.num(static_cast<uint64_t>(tm.tm_yday)), z.num(static_cast<uint64_t>(tm.tm_hour)), z.num(static_cast<uint64_t>(tm.tm_sec));
	z.str(stdex::strftime("%Y-%m-%d %H:%M:%S %A", &tm, stdex::locale_C.get()));
	z.num(static_cast<uint64_t>(aosn_timestamp::to_time_t(t)));
	int32_t hour, minute, second, ms;
	uint8_t dd, mm;
	int32_t yy;
	uint8_t h8, m8, s8;
	uint16_t ms16;
	(void)hour, (void)minute, (void)second, (void)ms;
	aosn_timestamp::to_dmy(t, &dd, &mm, &yy, &h8, &m8, &s8, &ms16);
	z.num(dd), z.num(mm), z.num(static_cast<uint64_t>(yy)), z.num(h8), z.num(m8), z.num(s8), z.num(ms16);
	return z.h;
}
APART(languages)
{
	Sum z;
	for (unsigned i = 0; i < 20; i++) {
		auto l = stdex::langid_from_rfc1766(r.one({ "sl", "sl-SI", "EN_us", "en", "de-at", "xx-YY", "sr-Latn-CS", "zh-TW", "fr-FR", "" }));
		z.num(l);
		auto p = stdex::rfc1766_from_langid(r.coin() ? l : static_cast<stdex::langid>(r.next()), "?");
		z.raw(p, ::strlen(p));
	}
	return z.h;
}
APART(platforms)
{
	Sum z;
	for (unsigned i = 0; i < 10; i++) z.num(static_cast<uint64_t>(stdex::platform_from_name(r.one({ "x86_64", "aarch64", "i386", "arm", "", "x86", "powerpc", "i686" }))));
	return z.h;
}
APART(uuids)
{
	Sum z;
	uuid_t id, back;
	for (size_t i = 0; i < 16; i++) reinterpret_cast<uint8_t*>(id)[i] = static_cast<uint8_t>(r.next());
	char s[stdex::uuid_str_max];
	wchar_t w[stdex::uuid_str_max];
	stdex::uuidtostr(s, id);
	stdex::uuidtostr(w, id);
	z.raw(s, sizeof(s)), z.raw(w, sizeof(w));
	memset(back, 0, 16);
	z.num(stdex::strtouuid(s, sizeof(s), back));
	z.raw(back, 16);
	return z.h;
}
APART(arithmetic)
{
	Sum z;
	size_t a = r.next() >> r.below(64), b = r.next() >> r.below(64);
	try { z.num(stdex::mul(a, b)); } catch (const std::exception& e) { z.problem(e); }
	try { z.num(stdex::add(a, b)); } catch (const std::exception& e) { z.problem(e); }
	z.num(static_cast<uint64_t>(stdex::muldiv(static_cast<int64_t>(a >> 33), static_cast<int64_t>(b >> 33), static_cast<int64_t>(1 + r.below(1000)))));
	z.num(stdex::byteswap(static_cast<uint64_t>(a)));
	z.num(stdex::rol(static_cast<uint32_t>(a), static_cast<int>(r.below(32))));
	stdex::mapping_vector<size_t> m;
	for (size_t i = 0, f = 0, t = 0, n = 1 + r.below(10); i < n; i++) m.push_back(stdex::mapping<size_t>(f += 1 + r.below(5), t += 1 + r.below(5)));
	size_t hint = 0;
	z.num(stdex::src2dst(m, static_cast<size_t>(r.below(60)), hint)), z.num(hint);
	z.num(stdex::dst2src(m, static_cast<size_t>(r.below(60)), hint)), z.num(hint);
	return z.h;
}
APART(compressed)
{
	Sum z;
	stdex::stream::memory_file f;
	auto b = r.bytes(r.size(3000));
	{
		stdex::zlib_writer w(f, static_cast<int>(1 + r.below(9)), 1 + static_cast<uint32_t>(r.below(500)));
		w.write_array(b.data(), 1, b.size());
		w.close();
	}
	z.raw(f.data(), static_cast<size_t>(f.size()));
	f.seek(0);
	stdex::zlib_reader d(f, 1 + static_cast<uint32_t>(r.below(500)));
	auto o = d.read_remainder();
	z.vec(o);
	z.num(o == b);
	return z.h;
}

#ifdef APART_OOM
VH_GROUP(text_oom, 2500, 40000, 400) { apart::out_of_memory(c); }
#else
VH_GROUP(text_apart, 1500, 40000, 300) { apart::together(c); }
#endif
VH_MAIN
