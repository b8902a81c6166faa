// P01: what every parser promises: bounded, repeatable matches that depend on nothing but the text in the range.
#include "kits.hpp"

using namespace vh;
using namespace kit;

template <class T>
struct Inst
{
	P<T> p;
	std::function<std::string()> dump; // everything a successful match reports
};
template <class T>
struct Entry
{
	std::string name;
	std::function<Inst<T>()> make;
	std::vector<std::wstring> tokens;
	bool lookbehind = false;
};
using W = std::vector<std::wstring>;

template <class T, class X>
Inst<T> inst(std::shared_ptr<X> p, std::function<std::string(X&)> d = nullptr)
{
	Inst<T> i;
	i.p = p;
	i.dump = [p, d] { return iv(p->interval) + (d ? " " + d(*p) : std::string()); };
	return i;
}

static const W numbers = { L"0", L"1", L"7", L"12", L"99", L"007", L"1000", L"65535", L"4294967296", L"+", L"-", L"~", L".", L"/", L":", L" ", L"e", L"E", L"$", L"\u20ac", L"e+5", L"e-3", L"1.5", L"3/4" };
static const W hexes = { L"0", L"9", L"a", L"F", L"ff", L"dead", L"BEEF", L"x", L"g" };
static const W romans = { L"I", L"V", L"X", L"L", L"C", L"D", L"M", L"IV", L"IX", L"XL", L"XC", L"CD", L"CM", L"i", L"x", L"\u2181", L"\u2182", L" " };
static const W ip4 = { L"0", L"1", L"10", L"127", L"192", L"255", L"256", L"999", L"01", L".", L".", L".", L"..", L":" };
static const W ip6 = { L"0", L"1", L"abcd", L"FFFF", L"fe80", L"12345", L":", L":", L":", L"::", L":::", L"%", L"%eth0", L"1.2.3.4", L".", L"[", L"]" };
static const W hosts = { L"a", L"example", L"com", L"www", L"-", L".", L".", L"..", L"x1", L"9", L"_", L"\u017elap", L"a-b", L"org.", L" ", L"/" };
static const W urls = { L"http", L"ftp", L"mailto", L"file", L"HTTP", L":", L"/", L"//", L"://", L"@", L"user", L"pass", L"example.com", L"www.", L"127.0.0.1", L"[::1]", L"[fe80::1%eth0]", L":80", L":65536", L"?", L"#", L"a=b", L"&", L"%20", L"path/to", L" ", L"\u0161", L".", L"(x)" };
static const W mails = { L"john", L"doe", L".", L"@", L"@", L"example.com", L"[", L"]", L"127.0.0.1", L"::1", L"fe80::1", L" ", L"-", L"+tag", L"a" };
static const W emos = { L":", L";", L"=", L"-", L")", L"(", L"D", L"P", L">", L"))", L"\u263a", L"x" };
static const W dates = { L"1", L"12", L"31", L"29", L"2", L"2024", L"1999", L".", L"/", L"-", L" ", L". ", L"\n", L"0", L"13", L"32" };
static const W times = { L"0", L"9", L"12", L"23", L"24", L"59", L"60", L":", L".", L",", L"5", L"123", L"1234", L" " };
static const W angles = { L"0", L"12", L"59", L"60", L"359", L"\u00b0", L"'", L"\"", L",", L"5", L" ", L"-" };
static const W phones = { L"1", L"386", L"040", L"123456", L"+", L"(", L")", L"[", L"]", L"-", L"/", L".", L" ", L"00", L"x" };
static const W ibans = { L"SI56023120015226972", L"SI56 0231 2001 5226 972", L"SI", L"DE", L"GB", L"56", L"0231", L"2001", L"5226", L"972", L" ", L"MIDL", L"BE71 0961 2345 6769", L"mt", L"MT", L"84", L"1234567890123456789012345", L"XX", L"ABCDEFGHIJKLMNOPQRSTUVWXYZABCDE" };
static const W rfs = { L"RF18539007547034", L"RF18 5390 0754 7034", L"RF", L"rf", L"18", L"5390", L"0754", L"A", L"ZZZZ", L"ABCDEFGHIJKLMNOPQRSTU", L"abcdefghijklmnopqrstuvwxyz", L" ", L"-", L"7034" };
static const W sis = { L"SI12", L"SI", L"si", L"00", L"01", L"05", L"11", L"12", L"99", L"18", L"40", L"1234567890120", L" ", L"-", L"--", L"123", L"4567890", L"12345678901234567890123", L"X", L"1-2-3" };
static const W chems = { L"H", L"2", L"O", L"Na", L"Cl", L"C", L"6", L"12", L"\u2082", L"+", L"-", L"h", L"S", L"N" };
static const W words = { L"a", L"ab", L"abc", L"b", L"A", L"B", L" ", L"\n", L"\r\n", L"\t", L".", L",", L"-", L"\u017e", L"\u017d", L"&", L"x", L"xyz" };
static const W jsons = { L"\"", L"\"", L"\\", L"\\\"", L"\\n", L"\\/", L"\\\\", L"\\u0041", L"\\u20AC", L"\\u12", L"\\uD800", L"abc", L" ", L"'", L"\\x", L"\\u" };
static const W csss = { L"/*", L"*/", L"*", L"/", L"<!--", L"-->", L"--", L">", L"\"", L"'", L"\\", L"\\\"", L"\\\\", L"url(", L"URL( ", L"URL(\"", L")", L"\")", L" ", L"\t", L"@import ", L"@import \"", L"@IMPORT'", L"@import", L"a.css", L";", L"x" };
static const W htmls = { L"<", L"<", L">", L">", L"/>", L"</", L"/", L"!", L"<!", L"<!--", L"-->", L"--", L"<?", L"?>", L"?", L"a", L"div", L"href", L"=", L"=", L"\"", L"'", L"\"x y\"", L"'z'", L" ", L"\n", L"<![", L"[", L"]]>", L"CDATA", L"!>", L"text/html", L"; charset=utf-8", L"; charset=\"x\"", L";", L"&amp;" };
static const W https = { L"GET", L" ", L" ", L"/", L"/a/b", L"?", L"&", L"a=b", L"=", L"x", L"HTTP/1.1", L"HTTP/", L"1", L".", L"\r\n", L"\n", L"\r\n ", L"\t", L":", L";", L",", L"q=0.5", L"q=", L"; q=1", L"*", L"*/*", L"text", L"text/html", L"\"", L"\\\"", L"\"qs\"", L"http://", L"http://h:80/", L":8080", L"en", L"-", L"en-US", L"$Version", L"$Path=/", L"Mozilla/5.0", L"(", L")", L"Host: x", L"\x7f", L"\x01", L"0", L"99999", L"%41" };

template <class T> std::string ivs(const std::vector<stdex::interval<size_t>>& v) { std::string s; for (auto& i : v) s += iv(i); return s; }

template <class F>
void add(std::vector<Entry<typename F::T>>& v)
{
	using T = typename F::T;
	namespace sp = stdex::parser;
	std::string pre = std::string(F::name) + " ";
	auto E = [&](const char* name, std::function<Inst<T>()> m, const W& t, bool lb = false) { v.push_back({ pre + name, m, t, lb }); };
	// Basic parsers
	E("noop", [] { return inst<T>(std::make_shared<sp::basic_noop<T>>()); }, words);
	E("any", [] { return inst<T>(F::any()); }, words);
	E("cu", [] { return inst<T>(F::cu(L'a')); }, words);
	E("cu-ext", [] { return inst<T>(F::sgml || sizeof(T) > 1 ? F::cu(L'\u017e') : F::cu(L'&')); }, words);
	E("not cu", [] { return inst<T>(F::cu(L'a', true)); }, words);
	E("space", [] { return inst<T>(F::space()); }, words);
	E("not space", [] { return inst<T>(F::space(true)); }, words);
	E("punct", [] { return inst<T>(F::punct()); }, words);
	E("not punct", [] { return inst<T>(F::punct(true)); }, words);
	E("space or punct", [] { return inst<T>(F::spop()); }, words);
	E("not space or punct", [] { return inst<T>(F::spop(true)); }, words);
	E("bol", [] { return inst<T>(std::make_shared<sp::basic_bol<T>>()); }, words, true);
	E("not bol", [] { return inst<T>(std::make_shared<sp::basic_bol<T>>(true)); }, words, true);
	E("eol", [] { return inst<T>(std::make_shared<sp::basic_eol<T>>()); }, words);
	E("not eol", [] { return inst<T>(std::make_shared<sp::basic_eol<T>>(true)); }, words);
	E("set", [] { return inst<T, sp::basic_set<T>>(F::set(L"abx.&"), [](sp::basic_set<T>& p) { return fmt("%zu", p.hit_offset); }); }, words);
	E("not set", [] { return inst<T, sp::basic_set<T>>(F::set(L"ab.", true), [](sp::basic_set<T>& p) { return fmt("%zu", p.hit_offset); }); }, words);
	E("string", [] { return inst<T>(F::str(L"abc")); }, words);
	E("empty string", [] { return inst<T>(F::str(L"")); }, words);
	E("iterations", [] { return inst<T>(some<T>(F::cu(L'a'), 1, 3)); }, words);
	E("lazy iterations", [] { return inst<T>(std::make_shared<sp::basic_iterations<T>>(F::any(), 2, 5, false)); }, words);
	E("iterations of anything", [] { return inst<T>(some<T>(F::any(), 0)); }, words);
	E("sequence", [] { return inst<T>(std::make_shared<sp::basic_sequence<T>>(std::vector<P<T>>{ F::cu(L'a'), F::any(), some<T>(F::space(), 0) })); }, words);
	E("branch", [] { return inst<T, sp::basic_branch<T>>(std::make_shared<sp::basic_branch<T>>(std::vector<P<T>>{ F::str(L"ab"), F::cu(L'a'), F::space() }), [](sp::basic_branch<T>& p) { return fmt("%zu", p.hit_offset); }); }, words);
	E("permutation", [] { return inst<T>(std::make_shared<sp::basic_permutation<T>>(std::vector<P<T>>{ F::cu(L'a'), F::str(L"ab"), F::cu(L'x') })); }, words);
	// Numbers
	E("integer10", [] { return inst<T, sp::basic_integer10<T>>(int10<F>(), [](auto& p) { return fmt("%zu", p.value); }); }, numbers);
	E("integer10ts", [] { return inst<T, sp::basic_integer10ts<T>>(int10ts<F>(), [](auto& p) { return fmt("%zu %zu %d", p.value, p.digit_count, p.has_separators); }); }, numbers);
	E("integer16", [] { return inst<T, sp::basic_integer16<T>>(int16<F>(), [](auto& p) { return fmt("%zu", p.value); }); }, hexes);
	E("roman", [] { return inst<T, sp::basic_roman_numeral<T>>(roman<F>(), [](auto& p) { return fmt("%zu", p.value); }); }, romans);
	E("roman of few digits", [] { return inst<T, sp::basic_roman_numeral<T>>(roman<F>(0x155), [](auto& p) { return fmt("%zu", p.value); }); }, romans);
	for (unsigned mask : { 31u, 63u, 95u })
		E(fmt("scientific/%u", mask).c_str(), [mask] { return inst<T, sp::basic_scientific_numeral<T>>(scientific<F>(mask), [](auto& p) { return part(p.integer) + part(p.decimal_separator) + part(p.decimal) + part(p.exponent_symbol) + part(p.positive_exp_sign) + part(p.negative_exp_sign) + part(p.exponent) + fmt(" %a", p.value); }); }, numbers);
	E("fraction", [] { return inst<T, sp::basic_fraction<T>>(fraction<F>(), [](auto& p) { return part(p.numerator) + part(p.fraction_line) + part(p.denominator); }); }, numbers);
	E("score", [] { return inst<T, sp::basic_score<T>>(score<F>(), [](auto& p) { return part(p.home) + part(p.separator) + part(p.guest); }); }, numbers);
	for (unsigned mask : { 7u, 0u, 2u, 5u }) {
		E(fmt("signed/%u", mask).c_str(), [mask] { return inst<T, sp::basic_signed_numeral<T>>(signed_num<F>(mask), [](auto& p) { return part(p.positive_sign) + part(p.negative_sign) + part(p.special_sign) + part(p.number); }); }, numbers);
		E(fmt("mixed/%u", mask).c_str(), [mask] { return inst<T, sp::basic_mixed_numeral<T>>(mixed<F>(mask), [](auto& p) { return part(p.positive_sign) + part(p.negative_sign) + part(p.special_sign) + part(p.integer) + part(p.fraction); }); }, numbers);
		E(fmt("scientific/%u", mask).c_str(), [mask] { return inst<T, sp::basic_scientific_numeral<T>>(scientific<F>(mask | mask << 3 | 96), [](auto& p) {
			return part(p.positive_sign) + part(p.negative_sign) + part(p.special_sign) + part(p.integer) + part(p.decimal_separator) + part(p.decimal) + part(p.exponent_symbol) + part(p.positive_exp_sign) + part(p.negative_exp_sign) + part(p.exponent) + fmt(" %a", p.value); }); }, numbers);
		E(fmt("monetary/%u", mask).c_str(), [mask] { return inst<T, sp::basic_monetary_numeral<T>>(monetary<F>(mask), [](auto& p) { return part(p.positive_sign) + part(p.negative_sign) + part(p.special_sign) + part(p.currency) + part(p.integer) + part(p.decimal_separator) + part(p.decimal); }); }, numbers);
	}
	// Addresses
	E("ipv4", [] { return inst<T, sp::basic_ipv4_address<T>>(ipv4<F>(), [](auto& p) { return iv(p.components[0]) + iv(p.components[1]) + iv(p.components[2]) + iv(p.components[3]) + fmt(" %08x", p.value.s_addr); }); }, ip4);
	auto d6 = [](auto& p) { std::string s; for (auto& i : p.components) s += iv(i); for (auto b : p.value.s6_addr) s += fmt("%02x", b); return s + part(p.scope_id); };
	E("ipv6", [d6] { return inst<T, sp::basic_ipv6_address<T>>(ipv6<F>(), d6); }, ip6);
	E("ipv6 without scope", [d6] { return inst<T, sp::basic_ipv6_address<T>>(ipv6<F>(false), d6); }, ip6);
	E("dns", [] { return inst<T>(dns<F>()); }, hosts);
	E("dns absolute", [] { return inst<T>(dns<F>(true, false)); }, hosts);
	E("dns char", [] { return inst<T>(F::dns_char(true)); }, hosts);
	E("url user char", [] { return inst<T>(F::url_user()); }, urls);
	E("url password char", [] { return inst<T>(F::url_pass()); }, urls);
	E("url char", [] { return inst<T>(F::url_char()); }, urls);
	E("scope char", [] { return inst<T>(F::scope_char()); }, urls);
	E("url path", [] { return inst<T, sp::basic_url_path<T>>(url_path<F>(), [](auto& p) { return iv(p.path) + iv(p.query) + iv(p.bookmark); }); }, urls);
	E("url", [] { return inst<T, sp::basic_url<T>>(url<F>(), [](auto& p) { return part(p.http_scheme) + part(p.ftp_scheme) + part(p.mailto_scheme) + part(p.file_scheme) + part(p.username) + part(p.password) + part(p.ipv4_host) + part(p.ipv6_host) + part(p.dns_host) + part(p.port) + part(p.path); }); }, urls);
	E("email", [] { return inst<T, sp::basic_email_address<T>>(email<F>(), [](auto& p) { return part(p.username) + part(p.ipv4_host) + part(p.ipv6_host) + part(p.dns_host); }); }, mails);
	E("emoticon", [] { return inst<T, sp::basic_emoticon<T>>(emoticon<F>(), [](auto& p) { return part(p.emoticon) + part(p.apex) + part(p.eyes) + part(p.nose) + part(p.mouth) + (p.mouth->interval ? fmt(" %zu", p.mouth->hit_offset) : ""); }); }, emos);
	for (unsigned mask = 0; mask < 7; mask++)
		E(fmt("emoticon/%u", mask).c_str(), [mask] { return inst<T, sp::basic_emoticon<T>>(emoticon<F>(mask), [](auto& p) { return part(p.emoticon) + part(p.apex) + part(p.eyes) + part(p.nose) + part(p.mouth) + (p.mouth->interval ? fmt(" %zu", p.mouth->hit_offset) : ""); }); }, emos);
	// Dates, times, angles and phones
	for (int mask : { 8, 16, 24 })
		E(fmt("date/%d without day", mask).c_str(), [mask] { return inst<T, sp::basic_date<T>>(date<F>(mask, false), [](auto& p) { return part(p.month) + part(p.year) + fmt(" %d", p.format); }); }, dates);
	for (int mask : { 32, 64, 96 })
		E(fmt("date/%d without year", mask).c_str(), [mask] { return inst<T, sp::basic_date<T>>(date<F>(mask, true, false), [](auto& p) { return part(p.day) + part(p.month) + fmt(" %d", p.format); }); }, dates);
	for (unsigned mask = 0; mask < 7; mask++)
		E(fmt("time/%u", mask).c_str(), [mask] { return inst<T, sp::basic_time<T>>(kit::time<F>(mask), [](auto& p) { return part(p.hour) + part(p.minute) + part(p.second) + part(p.millisecond); }); }, times);
	for (unsigned mask = 0; mask < 3; mask++)
		E(fmt("angle/%u", mask).c_str(), [mask] { return inst<T, sp::basic_angle<T>>(angle<F>(mask & 1, mask), [](auto& p) { return part(p.degree) + part(p.degree_separator) + part(p.minute) + part(p.minute_separator) + part(p.second) + part(p.second_separator) + part(p.decimal); }); }, angles);
	for (int mask : { 1, 2, 4, 8, 16, 32, 64, 127 })
		E(fmt("date/%d", mask).c_str(), [mask] { return inst<T, sp::basic_date<T>>(date<F>(mask), [](auto& p) { return part(p.day) + part(p.month) + part(p.year) + fmt(" %d", p.format); }); }, dates);
	E("time", [] { return inst<T, sp::basic_time<T>>(kit::time<F>(), [](auto& p) { return part(p.hour) + part(p.minute) + part(p.second) + part(p.millisecond); }); }, times);
	E("angle", [] { return inst<T, sp::basic_angle<T>>(angle<F>(), [](auto& p) { return part(p.degree) + part(p.degree_separator) + part(p.minute) + part(p.minute_separator) + part(p.second) + part(p.second_separator) + part(p.decimal); }); }, angles);
	for (unsigned mask : { 0u, 3u, 6u, 9u, 12u, 15u, 31u, 47u })
		E(fmt("phone/%u", mask).c_str(), [mask] { return inst<T, sp::basic_phone_number<T>>(phone<F>(mask), [](auto& p) { return show(p.value); }); }, phones);
	// References
	E("iban", [] { return inst<T, sp::basic_iban<T>>(iban<F>(), [](auto& p) { return show(std::basic_string<T>(p.country)) + show(std::basic_string<T>(p.check_digits)) + show(std::basic_string<T>(p.bban)) + fmt("%d", p.is_valid); }); }, ibans);
	E("creditor reference", [] { return inst<T, sp::basic_creditor_reference<T>>(creditor<F>(), [](auto& p) { return show(std::basic_string<T>(p.check_digits)) + show(std::basic_string<T>(p.reference)) + fmt("%d", p.is_valid); }); }, rfs);
	E("SI reference", [] { return inst<T, sp::basic_si_reference<T>>(si_reference<F>(), [](auto& p) { return show(std::basic_string<T>(p.model)) + iv(p.part1.interval) + iv(p.part2.interval) + iv(p.part3.interval) + fmt("%d", p.is_valid); }); }, sis);
	E("iban without spaces", [] { return inst<T, sp::basic_iban<T>>(iban<F>(false), [](auto& p) { return show(std::basic_string<T>(p.bban)) + fmt("%d", p.is_valid); }); }, ibans);
	E("creditor reference without spaces", [] { return inst<T, sp::basic_creditor_reference<T>>(creditor<F>(false), [](auto& p) { return show(std::basic_string<T>(p.reference)) + fmt("%d", p.is_valid); }); }, rfs);
	E("SI reference without spaces", [] { return inst<T, sp::basic_si_reference<T>>(si_reference<F>(false), [](auto& p) { return show(std::basic_string<T>(p.model)) + iv(p.part1.interval) + iv(p.part2.interval) + iv(p.part3.interval) + fmt("%d", p.is_valid); }); }, sis);
	E("SI reference part", [] { return inst<T>(std::make_shared<sp::basic_si_reference_part<T>>()); }, sis);
	E("SI reference delimiter", [] { return inst<T>(std::make_shared<sp::basic_si_reference_delimiter<T>>()); }, sis);
	E("chemical formula", [] { return inst<T, sp::basic_chemical_formula<T>>(chemical<F>(), [](auto& p) { return fmt("%d%d", p.has_digits, p.has_charge); }); }, chems);
	E("json string", [] { return inst<T, sp::basic_json_string<T>>(json<F>(), [](auto& p) { return show(p.value); }); }, jsons);
	if (F::sgml) return;
	// Tokens of CSS, MIME and HTML
	E("css comment", [] { return inst<T, sp::basic_css_comment<T>>(std::make_shared<sp::basic_css_comment<T>>(), [](auto& p) { return iv(p.content); }); }, csss);
	E("css cdo", [] { return inst<T>(std::make_shared<sp::basic_css_cdo<T>>()); }, csss);
	E("css cdc", [] { return inst<T>(std::make_shared<sp::basic_css_cdc<T>>()); }, csss);
	E("css string", [] { return inst<T, sp::basic_css_string<T>>(std::make_shared<sp::basic_css_string<T>>(), [](auto& p) { return iv(p.content); }); }, csss);
	E("css uri", [] { return inst<T, sp::basic_css_uri<T>>(std::make_shared<sp::basic_css_uri<T>>(), [](auto& p) { return iv(p.content); }); }, csss);
	E("css import", [] { return inst<T, sp::basic_css_import<T>>(std::make_shared<sp::basic_css_import<T>>(), [](auto& p) { return iv(p.content); }); }, csss);
	E("mime type", [] { return inst<T, sp::basic_mime_type<T>>(std::make_shared<sp::basic_mime_type<T>>(), [](auto& p) { return iv(p.base_type) + iv(p.sub_type) + iv(p.charset); }); }, htmls);
	E("html ident", [] { return inst<T>(std::make_shared<sp::basic_html_ident<T>>()); }, htmls);
	E("html value", [] { return inst<T, sp::basic_html_value<T>>(std::make_shared<sp::basic_html_value<T>>(), [](auto& p) { return iv(p.content); }); }, htmls);
	for (int i = 0; i < 4; i++) // More often: it is the most complex one.
		E("html tag", [] { return inst<T, sp::basic_html_tag<T>>(std::make_shared<sp::basic_html_tag<T>>(), [](auto& p) { auto s = fmt("%d ", static_cast<int>(p.type)) + iv(p.name); for (auto& a : p.attributes) s += " " + iv(a.name) + "=" + iv(a.value); return s; }); }, htmls);
	E("html condition start", [] { return inst<T, sp::basic_html_declaration_condition_start<T>>(std::make_shared<sp::basic_html_declaration_condition_start<T>>(), [](auto& p) { return iv(p.condition); }); }, htmls);
	E("html condition end", [] { return inst<T>(std::make_shared<sp::basic_html_declaration_condition_end<T>>()); }, htmls);
}

static std::string hv(const stdex::parser::http_value& v) { return iv(v.interval) + "(" + iv(v.token.interval) + iv(v.string.interval) + (v.string.interval ? iv(v.string.content) : "") + ")"; }
static std::string hu(const stdex::parser::http_url& u)
{
	auto s = iv(u.interval) + iv(u.server.interval) + iv(u.port.interval) + (u.port.interval ? fmt("%u", u.port.value) : "") + iv(u.path.interval);
	for (auto& g : u.path.segments) s += "/" + iv(g.interval);
	for (auto& p : u.params) s += "&" + iv(p.interval) + iv(p.name) + iv(p.value);
	return s;
}
[[maybe_unused]] static void add_http(std::vector<Entry<char>>& v)
{
	using T = char;
	using namespace stdex::parser;
	auto E = [&](const char* name, std::function<Inst<T>()> m) { v.push_back({ std::string("http ") + name, m, https }); };
	E("line break", [] { return inst<T>(std::make_shared<http_line_break>()); });
	E("space", [] { return inst<T>(std::make_shared<http_space>()); });
	E("text char", [] { return inst<T>(std::make_shared<http_text_char>()); });
	E("token", [] { return inst<T>(std::make_shared<http_token>()); });
	E("quoted string", [] { return inst<T, http_quoted_string>(std::make_shared<http_quoted_string>(), [](auto& p) { return iv(p.content); }); });
	E("value", [] { return inst<T, http_value>(std::make_shared<http_value>(), [](auto& p) { return hv(p); }); });
	E("parameter", [] { return inst<T, http_parameter>(std::make_shared<http_parameter>(), [](auto& p) { return iv(p.name.interval) + hv(p.value); }); });
	E("any type", [] { return inst<T>(std::make_shared<http_any_type>()); });
	E("media range", [] { return inst<T, http_media_range>(std::make_shared<http_media_range>(), [](auto& p) { return iv(p.type.interval) + iv(p.subtype.interval); }); });
	E("media type", [] { return inst<T, http_media_type>(std::make_shared<http_media_type>(), [](auto& p) { auto s = iv(p.type.interval) + iv(p.subtype.interval); for (auto& a : p.params) s += iv(a.name.interval) + hv(a.value); return s; }); });
	E("url server", [] { return inst<T>(std::make_shared<http_url_server>()); });
	E("url port", [] { return inst<T, http_url_port>(std::make_shared<http_url_port>(), [](auto& p) { return fmt("%u", p.value); }); });
	E("url path segment", [] { return inst<T>(std::make_shared<http_url_path_segment>()); });
	E("url path", [] { return inst<T, http_url_path>(std::make_shared<http_url_path>(), [](auto& p) { std::string s; for (auto& g : p.segments) s += iv(g.interval); return s; }); });
	E("url parameter", [] { return inst<T, http_url_parameter>(std::make_shared<http_url_parameter>(), [](auto& p) { return iv(p.name) + iv(p.value); }); });
	E("url", [] { return inst<T, http_url>(std::make_shared<http_url>(), [](auto& p) { return hu(p); }); });
	E("language", [] { return inst<T, http_language>(std::make_shared<http_language>(), [](auto& p) { return ivs<T>(p.components); }); });
	E("weight", [] { return inst<T, http_weight>(std::make_shared<http_weight>(), [](auto& p) { return fmt("%a", static_cast<double>(p.value)); }); });
	E("asterisk", [] { return inst<T>(std::make_shared<http_asterisk>()); });
	E("weighted token", [] { return inst<T, http_weighted_value<http_token>>(std::make_shared<http_weighted_value<http_token>>(), [](auto& p) { return iv(p.asterisk.interval) + iv(p.value.interval) + iv(p.factor.interval) + fmt(" %a", static_cast<double>(p.factor.value)); }); });
	E("weighted language", [] { return inst<T, http_weighted_value<http_language>>(std::make_shared<http_weighted_value<http_language>>(), [](auto& p) { return iv(p.asterisk.interval) + iv(p.value.interval) + (p.value.interval ? ivs<T>(p.value.components) : "") + iv(p.factor.interval) + fmt(" %a", static_cast<double>(p.factor.value)); }); });
	E("weighted media range", [] { return inst<T, http_weighted_value<http_media_range, http_any_type>>(std::make_shared<http_weighted_value<http_media_range, http_any_type>>(), [](auto& p) { return iv(p.asterisk.interval) + iv(p.value.interval) + iv(p.factor.interval) + fmt(" %a", static_cast<double>(p.factor.value)); }); });
	E("cookie parameter", [] { return inst<T, http_cookie_parameter>(std::make_shared<http_cookie_parameter>(), [](auto& p) { return iv(p.name.interval) + hv(p.value); }); });
	E("cookie", [] { return inst<T, http_cookie>(std::make_shared<http_cookie>(), [](auto& p) { auto s = iv(p.name.interval) + hv(p.value); for (auto& a : p.params) s += iv(a.interval) + iv(a.name.interval) + hv(a.value); return s; }); });
	E("agent", [] { return inst<T, http_agent>(std::make_shared<http_agent>(), [](auto& p) { return iv(p.type) + iv(p.version); }); });
	E("protocol", [] { return inst<T, http_protocol>(std::make_shared<http_protocol>(), [](auto& p) { return iv(p.type) + iv(p.version_maj) + iv(p.version_min) + fmt(" %x", p.version); }); });
	E("request", [] { return inst<T, http_request>(std::make_shared<http_request>(), [](auto& p) { return iv(p.verb) + hu(p.url) + iv(p.protocol.interval) + (p.protocol.interval ? fmt(" %x", p.protocol.version) : ""); }); });
	E("header", [] { return inst<T, http_header>(std::make_shared<http_header>(), [](auto& p) { return iv(p.name) + iv(p.value); }); });
}

template <class T> const std::vector<Entry<T>>& registry()
{
	static const auto v = [] {
		std::vector<Entry<T>> v;
#if PART == 1
		add<Char>(v);
		add_http(v);
#elif PART == 2
		add<Wide>(v);
#else
		add<Sgml>(v);
#endif
		return v;
	}();
	return v;
}

template <class T>
static std::basic_string<T> text_for(Case& c, const Entry<T>& e)
{
	auto w = soup(c.rng, e.tokens, 12, c.rng.chance(1, 3) ? 6 : 0);
	std::basic_string<T> t;
	if constexpr (sizeof(T) == 1) {
		if (e.name[0] == 'S') t = Sgml::enc(w, c.rng).s;
		else { for (auto& ch : w) if (ch == L'\u017e') ch = L'\u00be'; t = Char::enc(w, c.rng).s; }
	}
	else
		t = w;
	// Damage
	for (size_t n = c.rng.chance(1, 4) ? c.rng.below(3) : 0; n && !t.empty(); --n) {
		size_t i = static_cast<size_t>(c.rng.below(t.size()));
		switch (c.rng.below(4)) {
		case 0: t.erase(i, 1); break;
		case 1: t.insert(i, 1, t[static_cast<size_t>(c.rng.below(t.size()))]); break;
		case 2: t[i] = static_cast<T>(c.rng.range(1, sizeof(T) == 1 ? 255 : 0x2ff)); break;
		default: t.insert(i, t.substr(static_cast<size_t>(c.rng.below(t.size())))); break;
		}
	}
	if (c.rng.chance(1, 12) && !t.empty()) t[static_cast<size_t>(c.rng.below(t.size()))] = 0;
	return t;
}

struct Res
{
	bool ok;
	std::string d;
	bool operator==(const Res& o) const { return ok == o.ok && d == o.d; }
};
template <class T>
static Res run(Inst<T>& i, const T* text, size_t start, size_t end, int flags)
{
	Res r;
	r.ok = i.p->match(text, start, end, flags);
	r.d = r.ok ? i.dump() : "";
	return r;
}

template <class T>
static void contract(Case& c)
{
	auto& r = c.rng;
	auto& reg = registry<T>();
	auto& e = reg[static_cast<size_t>(c.index % reg.size())];
	auto t = text_for(c, e);
	const int flags = static_cast<int>(r.below(4));
	const size_t end = t.size();
	size_t start = r.chance(1, 2) ? 0 : static_cast<size_t>(r.below(end + 3));
	const char* nm = e.name.c_str();

	// Nothing but the range
	Res a;
	{
		Exact<T> x(t);
		auto i = e.make();
		a = run<T>(i, x.data(), start, end, flags);
		size_t stop = start;
		while (stop < end && t[stop]) stop++;
		if (a.ok) {
			VH_CHECK(c, i.p->interval && i.p->interval.start == start, "start", "%s matching %s at %zu reports %s", nm, show(t).c_str(), start, iv(i.p->interval).c_str());
			VH_CHECK(c, i.p->interval.end <= std::max(stop, start), "beyond", "%s matching %s at %zu reports %s", nm, show(t).c_str(), start, iv(i.p->interval).c_str());
			if (i.p->interval.end > start) c.sig(hash_bytes(t.data(), t.size() * sizeof(T), hash_str(e.name) + start));
			c.count("matches");
		}
		else {
			VH_CHECK(c, !i.p->interval, "failure-interval", "%s not matching %s at %zu reports %s", nm, show(t).c_str(), start, iv(i.p->interval).c_str());
			c.count("no matches");
		}
		if (c.index < 2 * reg.size() && a.ok) c.sample(e.name + " " + show(t) + fmt(" at %zu: ", start) + a.d);

		// The same object again
		auto b = run<T>(i, x.data(), start, end, flags);
		VH_CHECK(c, a == b, "repeat", "%s matching %s at %zu: %d %s, then %d %s", nm, show(t).c_str(), start, a.ok, a.d.c_str(), b.ok, b.d.c_str());

		// After something else
		for (size_t n = 1 + r.below(3); n; --n) {
			auto u = text_for(c, e);
			if (r.coin() && !t.empty()) { // similar
				u = t;
				u[static_cast<size_t>(r.below(u.size()))] = r.coin() ? static_cast<T>(' ') : static_cast<T>('0' + r.below(10));
			}
			Exact<T> y(u);
			i.p->match(y.data(), static_cast<size_t>(r.below(u.size() + 1)), u.size(), flags);
		}
		b = run<T>(i, x.data(), start, end, flags);
		VH_CHECK(c, a == b, "history", "%s matching %s at %zu: %d %s when new, %d %s when used before", nm, show(t).c_str(), start, a.ok, a.d.c_str(), b.ok, b.d.c_str());
	}
	if (c.failed) return;

	// Nothing left once told so
	{
		Exact<T> x(t);
		auto i = e.make(), j = e.make();
		auto was = i.dump();
		auto q = run<T>(i, x.data(), start, end, flags);
		VH_CHECK(c, q.ok || i.dump() == was, "failed-parts", "%s not matching %s at %zu reports %s, when new %s", nm, show(t).c_str(), start, i.dump().c_str(), was.c_str());
		i.p->invalidate();
		VH_CHECK(c, !i.p->interval, "invalidated", "%s invalidated reports %s", nm, iv(i.p->interval).c_str());
		VH_CHECK(c, i.dump() == was, "invalidated-parts", "%s invalidated after matching %s at %zu reports %s, when new %s", nm, show(t).c_str(), start, i.dump().c_str(), was.c_str());
		auto b = run<T>(i, x.data(), start, end, flags);
		VH_CHECK(c, a == b, "invalidated-reuse", "%s matching %s at %zu: %d %s when new, %d %s after being invalidated", nm, show(t).c_str(), start, a.ok, a.d.c_str(), b.ok, b.d.c_str());
		j.p->invalidate();
		b = run<T>(j, x.data(), start, end, flags);
		VH_CHECK(c, a == b, "invalidated-new", "%s matching %s at %zu: %d %s when new, %d %s when invalidated before", nm, show(t).c_str(), start, a.ok, a.d.c_str(), b.ok, b.d.c_str());
	}
	// Text around the range
	{
		auto u = t;
		switch (r.below(4)) {
		case 0: u += text_for(c, e); break;
		case 1: for (auto ch : soup(r, numbers, 4)) u += static_cast<T>(ch); break;
		case 2: u.append(1 + r.below(3), static_cast<T>('0' + r.below(10))); break;
		default: u.append(1, static_cast<T>(r.one({ ' ', ';', ')', '"', '>', '=', '.', ':', '\n', 'e', '/' }))); break;
		}
		if (!e.lookbehind) for (size_t k = 0; k < start && k < end; k++) u[k] = static_cast<T>(r.range(1, 127));
		Exact<T> x(u);
		auto i = e.make();
		auto b = run<T>(i, x.data(), start, end, flags);
		VH_CHECK(c, a == b, "outside", "%s matching %s at %zu: %d %s alone, %d %s within %s", nm, show(t).c_str(), start, a.ok, a.d.c_str(), b.ok, b.d.c_str(), show(u).c_str());
	}
	// Terminated text
	if (start <= end) {
		auto z = t;
		z.push_back(0);
		Exact<T> x(z);
		auto i = e.make();
		size_t stop = start;
		while (stop < end && t[stop]) stop++;
		auto s = run<T>(i, x.data(), start, stop, flags);
		auto j = e.make();
		auto b = run<T>(j, x.data(), start, r.coin() ? SIZE_MAX : z.size(), flags);
		VH_CHECK(c, s == b, "terminated", "%s matching %s at %zu: %d %s up to the terminator, %d %s of terminated text", nm, show(t.substr(0, stop)).c_str(), start, s.ok, s.d.c_str(), b.ok, b.d.c_str());
	}
	// Search
	{
		Exact<T> x(t);
		auto i = e.make();
		size_t at = SIZE_MAX;
		Res w{ false, "" };
		for (size_t k = start; k < end && t[k]; k++) {
			auto f = e.make();
			w = run<T>(f, x.data(), k, end, flags);
			if (w.ok) { at = k; break; }
		}
		bool ok = i.p->search(x.data(), start, end, flags);
		VH_CHECK(c, ok == w.ok && (!ok || i.dump() == w.d), "search", "%s searching %s from %zu: %d %s, first match at %zu: %s", nm, show(t).c_str(), start, ok, ok ? i.dump().c_str() : "", at, w.d.c_str());
	}
	// Text as a view: its size ends it
	{
		Exact<T> x(t);
		auto i = e.make();
		size_t lim = r.coin() ? SIZE_MAX : end + r.below(3);
		Res b;
		b.ok = i.p->match(std::basic_string_view<T>(x.data(), end), start, lim, flags);
		b.d = b.ok ? i.dump() : "";
		VH_CHECK(c, a == b, "view", "%s matching %s at %zu: %d %s of an array, %d %s of a view", nm, show(t).c_str(), start, a.ok, a.d.c_str(), b.ok, b.d.c_str());
	}
	// Nothing
	{
		auto i = e.make();
		bool ok = i.p->match(static_cast<const T*>(nullptr), 0, 0, flags);
		VH_CHECK(c, !ok || (i.p->interval.start == 0 && i.p->interval.end == 0), "nothing", "%s on no text: %d %s", nm, ok, iv(i.p->interval).c_str());
	}
}

// One encoding per build: PART is 1 for char and HTTP, 2 for wchar_t and 3 for SGML.
#if PART == 1
VH_GROUP(narrow, 300000, 6000000, 5000) { contract<char>(c); }
#elif PART == 2
VH_GROUP(wide, 200000, 4000000, 5000) { contract<wchar_t>(c); }
#else
VH_GROUP(sgml, 200000, 4000000, 5000) { contract<char>(c); }
#endif
VH_MAIN
