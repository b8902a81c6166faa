// Parsers of every kind in three encodings (char, wchar_t, SGML), and texts for them.
#pragma once
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/parser.hpp>

namespace kit
{
	namespace sp = stdex::parser;
	template <class T> using P = std::shared_ptr<sp::basic_parser<T>>;
	template <class T> using S = std::shared_ptr<sp::basic_set<T>>;

	// A text in some encoding. pos[i] is where the i-th character starts.
	template <class T>
	struct Text
	{
		std::basic_string<T> s;
		std::vector<size_t> pos;
	};

	struct Char
	{
		using T = char;
		static constexpr const char* name = "char";
		static constexpr bool sgml = false;
		static std::basic_string<T> raw(const std::wstring& s) { std::string r; for (auto ch : s) r += static_cast<char>(ch); return r; }
		static P<T> cu(wchar_t ch, bool inv = false) { return inv ? std::make_shared<sp::cu>(static_cast<char>(ch), true) : std::make_shared<sp::cu>(static_cast<char>(ch)); }
		static S<T> set(const std::wstring& s, bool inv = false) { return inv ? std::make_shared<sp::cu_set>(raw(s).c_str(), SIZE_MAX, true) : std::make_shared<sp::cu_set>(raw(s).c_str()); }
		static P<T> str(const std::wstring& s) { return std::make_shared<sp::string>(raw(s).c_str()); }
		static P<T> any() { return std::make_shared<sp::any_cu>(); }
		static P<T> space(bool inv = false) { return inv ? std::make_shared<sp::space_cu>(true) : std::make_shared<sp::space_cu>(); }
		static P<T> punct(bool inv = false) { return inv ? std::make_shared<sp::punct_cu>(true) : std::make_shared<sp::punct_cu>(); }
		static P<T> spop(bool inv = false) { return inv ? std::make_shared<sp::space_or_punct_cu>(true) : std::make_shared<sp::space_or_punct_cu>(); }
		static std::shared_ptr<sp::basic_dns_domain_char<T>> dns_char(bool idn) { return std::make_shared<sp::dns_domain_char>(idn); }
		static P<T> url_user() { return std::make_shared<sp::url_username_char>(); }
		static P<T> url_pass() { return std::make_shared<sp::url_password_char>(); }
		static P<T> url_char() { return std::make_shared<sp::url_path_char>(); }
		static P<T> scope_char() { return std::make_shared<sp::ipv6_scope_id_char>(); }
		static Text<T> enc(const std::wstring& s, vh::Rng&)
		{
			Text<T> r;
			for (auto ch : s) { r.pos.push_back(r.s.size()); r.s += static_cast<char>(ch); }
			r.pos.push_back(r.s.size());
			return r;
		}
	};

	struct Wide
	{
		using T = wchar_t;
		static constexpr const char* name = "wchar_t";
		static constexpr bool sgml = false;
		static const std::wstring& raw(const std::wstring& s) { return s; }
		static P<T> cu(wchar_t ch, bool inv = false) { return inv ? std::make_shared<sp::wcu>(ch, true) : std::make_shared<sp::wcu>(ch); }
		static S<T> set(const std::wstring& s, bool inv = false) { return inv ? std::make_shared<sp::wcu_set>(s.c_str(), SIZE_MAX, true) : std::make_shared<sp::wcu_set>(s.c_str()); }
		static P<T> str(const std::wstring& s) { return std::make_shared<sp::wstring>(s.c_str()); }
		static P<T> any() { return std::make_shared<sp::wany_cu>(); }
		static P<T> space(bool inv = false) { return inv ? std::make_shared<sp::wspace_cu>(true) : std::make_shared<sp::wspace_cu>(); }
		static P<T> punct(bool inv = false) { return inv ? std::make_shared<sp::wpunct_cu>(true) : std::make_shared<sp::wpunct_cu>(); }
		static P<T> spop(bool inv = false) { return inv ? std::make_shared<sp::wspace_or_punct_cu>(true) : std::make_shared<sp::wspace_or_punct_cu>(); }
		static std::shared_ptr<sp::basic_dns_domain_char<T>> dns_char(bool idn) { return std::make_shared<sp::wdns_domain_char>(idn); }
		static P<T> url_user() { return std::make_shared<sp::wurl_username_char>(); }
		static P<T> url_pass() { return std::make_shared<sp::wurl_password_char>(); }
		static P<T> url_char() { return std::make_shared<sp::wurl_path_char>(); }
		static P<T> scope_char() { return std::make_shared<sp::wipv6_scope_id_char>(); }
		static Text<T> enc(const std::wstring& s, vh::Rng&)
		{
			Text<T> r;
			for (auto ch : s) { r.pos.push_back(r.s.size()); r.s += ch; }
			r.pos.push_back(r.s.size());
			return r;
		}
	};

	struct Sgml
	{
		using T = char;
		static constexpr const char* name = "SGML";
		static constexpr bool sgml = true;
		static std::string raw(const std::wstring& s)
		{
			std::string r;
			for (auto ch : s) {
				if (ch == L'&') r += "&amp;";
				else if (ch > 0x7e) r += vh::fmt("&#x%x;", static_cast<unsigned>(ch));
				else r += static_cast<char>(ch);
			}
			return r;
		}
		static P<T> cu(wchar_t ch, bool inv = false) { return inv ? std::make_shared<sp::sgml_cp>(raw(std::wstring(1, ch)).c_str(), SIZE_MAX, true) : std::make_shared<sp::sgml_cp>(raw(std::wstring(1, ch)).c_str()); }
		static S<T> set(const std::wstring& s, bool inv = false) { return inv ? std::make_shared<sp::sgml_cp_set>(raw(s).c_str(), SIZE_MAX, true) : std::make_shared<sp::sgml_cp_set>(raw(s).c_str()); }
		static P<T> str(const std::wstring& s) { return std::make_shared<sp::sgml_string>(raw(s).c_str()); }
		static P<T> any() { return std::make_shared<sp::sgml_any_cp>(); }
		static P<T> space(bool inv = false) { return inv ? std::make_shared<sp::sgml_space_cp>(true) : std::make_shared<sp::sgml_space_cp>(); }
		static P<T> punct(bool inv = false) { return inv ? std::make_shared<sp::sgml_punct_cp>(true) : std::make_shared<sp::sgml_punct_cp>(); }
		static P<T> spop(bool inv = false) { return inv ? std::make_shared<sp::sgml_space_or_punct_cp>(true) : std::make_shared<sp::sgml_space_or_punct_cp>(); }
		static std::shared_ptr<sp::basic_dns_domain_char<T>> dns_char(bool idn) { return std::make_shared<sp::sgml_dns_domain_char>(idn); }
		static P<T> url_user() { return std::make_shared<sp::sgml_url_username_char>(); }
		static P<T> url_pass() { return std::make_shared<sp::sgml_url_password_char>(); }
		static P<T> url_char() { return std::make_shared<sp::sgml_url_path_char>(); }
		static P<T> scope_char() { return std::make_shared<sp::sgml_ipv6_scope_id_char>(); }
		// What begins here is not an entity: the text ends, or a space or another & comes before any semicolon.
		static bool bare(const std::string& after)
		{
			size_t i = after.find_first_of("; &\t\n\v\f\r");
			return i == std::string::npos || after[i] != ';';
		}
		static Text<T> enc(const std::wstring& s, vh::Rng& r)
		{
			Text<T> t;
			bool ent = r.chance(1, 2);
			std::vector<std::string> parts(s.size());
			std::string after;
			for (size_t i = s.size(); i--;) {
				const auto ch = s[i];
				std::string& p = parts[i];
				const char* named = ch == L'&' ? "amp" : ch == L'\u20ac' ? "euro" : ch == L'<' ? "lt" : ch == L'>' ? "gt" : ch == L'"' ? "quot" : ch == L'.' ? "period" : ch == L',' ? "comma" : ch == L'\u00b0' ? "deg" : nullptr;
				if (ch == L'&' && r.coin() && bare(after)) p = "&";
				else if (ch == L'&' || ch > 0x7e || (ent && r.chance(1, 6) && ch > 0x20)) {
					if (named && r.coin()) p = std::string("&") + named + ";";
					else p = r.coin() ? vh::fmt("&#%u;", static_cast<unsigned>(ch)) : vh::fmt("&#x%x;", static_cast<unsigned>(ch));
				}
				else p = static_cast<char>(ch);
				after.insert(0, p);
			}
			for (auto& p : parts) {
				t.pos.push_back(t.s.size());
				t.s += p;
			}
			t.pos.push_back(t.s.size());
			return t;
		}
	};

	template <class F> P<typename F::T> digit(unsigned d) { return F::cu(L'0' + static_cast<wchar_t>(d)); }

	template <class F>
	std::shared_ptr<sp::basic_integer10<typename F::T>> int10()
	{
		return std::make_shared<sp::basic_integer10<typename F::T>>(digit<F>(0), digit<F>(1), digit<F>(2), digit<F>(3), digit<F>(4), digit<F>(5), digit<F>(6), digit<F>(7), digit<F>(8), digit<F>(9));
	}
	template <class F>
	std::shared_ptr<sp::basic_integer10ts<typename F::T>> int10ts(const std::wstring& sep = L".")
	{
		return std::make_shared<sp::basic_integer10ts<typename F::T>>(int10<F>(), F::set(sep));
	}
	template <class F> P<typename F::T> hexdigit(unsigned d) { return d < 10 ? digit<F>(d) : P<typename F::T>(F::set(std::wstring{ static_cast<wchar_t>(L'a' + d - 10), static_cast<wchar_t>(L'A' + d - 10) })); }
	template <class F>
	std::shared_ptr<sp::basic_integer16<typename F::T>> int16()
	{
		auto h = hexdigit<F>;
		return std::make_shared<sp::basic_integer16<typename F::T>>(h(0), h(1), h(2), h(3), h(4), h(5), h(6), h(7), h(8), h(9), h(10), h(11), h(12), h(13), h(14), h(15));
	}
	template <class F>
	std::shared_ptr<sp::basic_roman_numeral<typename F::T>> roman(unsigned mask = 511)
	{
		auto d = [&](unsigned i, wchar_t ch) { return mask & (1u << i) ? F::cu(ch) : nullptr; };
		return std::make_shared<sp::basic_roman_numeral<typename F::T>>(d(0, L'I'), d(1, L'V'), d(2, L'X'), d(3, L'L'), d(4, L'C'), d(5, L'D'), d(6, L'M'), d(7, L'\u2181'), d(8, L'\u2182'));
	}
	template <class F>
	std::shared_ptr<sp::basic_fraction<typename F::T>> fraction()
	{
		return std::make_shared<sp::basic_fraction<typename F::T>>(int10<F>(), F::cu(L'/'), int10<F>());
	}
	template <class F>
	std::shared_ptr<sp::basic_score<typename F::T>> score()
	{
		return std::make_shared<sp::basic_score<typename F::T>>(int10<F>(), F::cu(L':'), int10<F>(), F::space());
	}
	template <class F>
	std::shared_ptr<sp::basic_signed_numeral<typename F::T>> signed_num(unsigned mask = 7)
	{
		return std::make_shared<sp::basic_signed_numeral<typename F::T>>(mask & 1 ? F::cu(L'+') : nullptr, mask & 2 ? F::cu(L'-') : nullptr, mask & 4 ? F::cu(L'~') : nullptr, int10<F>());
	}
	template <class F>
	std::shared_ptr<sp::basic_mixed_numeral<typename F::T>> mixed(unsigned mask = 7)
	{
		return std::make_shared<sp::basic_mixed_numeral<typename F::T>>(mask & 1 ? F::cu(L'+') : nullptr, mask & 2 ? F::cu(L'-') : nullptr, mask & 4 ? F::cu(L'~') : nullptr, int10<F>(), F::space(), fraction<F>());
	}
	template <class F>
	std::shared_ptr<sp::basic_scientific_numeral<typename F::T>> scientific(unsigned mask = 127)
	{
		return std::make_shared<sp::basic_scientific_numeral<typename F::T>>(
			mask & 1 ? F::cu(L'+') : nullptr, mask & 2 ? F::cu(L'-') : nullptr, mask & 4 ? F::cu(L'~') : nullptr,
			int10<F>(), F::cu(L'.'), int10<F>(), mask & 32 ? P<typename F::T>(F::set(L"eE")) : nullptr, mask & 8 ? F::cu(L'+') : nullptr, mask & 16 ? F::cu(L'-') : nullptr, mask & 64 ? int10<F>() : nullptr);
	}
	template <class F>
	std::shared_ptr<sp::basic_monetary_numeral<typename F::T>> monetary(unsigned mask = 7)
	{
		return std::make_shared<sp::basic_monetary_numeral<typename F::T>>(
			mask & 1 ? F::cu(L'+') : nullptr, mask & 2 ? F::cu(L'-') : nullptr, mask & 4 ? F::cu(L'~') : nullptr,
			F::set(L"$\u20ac"), int10<F>(), F::cu(L'.'), int10<F>());
	}
	template <class F>
	std::shared_ptr<sp::basic_ipv4_address<typename F::T>> ipv4()
	{
		return std::make_shared<sp::basic_ipv4_address<typename F::T>>(digit<F>(0), digit<F>(1), digit<F>(2), digit<F>(3), digit<F>(4), digit<F>(5), digit<F>(6), digit<F>(7), digit<F>(8), digit<F>(9), F::cu(L'.'));
	}
	template <class F>
	std::shared_ptr<sp::basic_ipv6_address<typename F::T>> ipv6(bool scope = true)
	{
		auto h = hexdigit<F>;
		using T = typename F::T;
		return std::make_shared<sp::basic_ipv6_address<T>>(h(0), h(1), h(2), h(3), h(4), h(5), h(6), h(7), h(8), h(9), h(10), h(11), h(12), h(13), h(14), h(15), F::cu(L':'),
			scope ? F::cu(L'%') : nullptr, scope ? P<T>(std::make_shared<sp::basic_iterations<T>>(F::scope_char(), 1)) : nullptr);
	}
	template <class F>
	std::shared_ptr<sp::basic_dns_name<typename F::T>> dns(bool absolute = false, bool idn = true)
	{
		return std::make_shared<sp::basic_dns_name<typename F::T>>(absolute, F::dns_char(idn), F::cu(L'.'));
	}
	template <class T> P<T> some(const P<T>& p, size_t n = 1, size_t m = SIZE_MAX) { return std::make_shared<sp::basic_iterations<T>>(p, n, m); }
	template <class F>
	std::shared_ptr<sp::basic_url_path<typename F::T>> url_path()
	{
		return std::make_shared<sp::basic_url_path<typename F::T>>(F::url_char(), F::cu(L'?'), F::cu(L'#'));
	}
	template <class F>
	std::shared_ptr<sp::basic_url<typename F::T>> url()
	{
		using T = typename F::T;
		return std::make_shared<sp::basic_url<T>>(
			F::str(L"http"), F::str(L"ftp"), F::str(L"mailto"), F::str(L"file"), F::cu(L':'), F::cu(L'/'),
			some<T>(F::url_user()), some<T>(F::url_pass()), F::cu(L'@'), F::cu(L'['), F::cu(L']'),
			ipv4<F>(), ipv6<F>(), dns<F>(), int10<F>(), url_path<F>());
	}
	template <class F>
	std::shared_ptr<sp::basic_email_address<typename F::T>> email()
	{
		using T = typename F::T;
		return std::make_shared<sp::basic_email_address<T>>(some<T>(F::url_user()), F::cu(L'@'), F::cu(L'['), F::cu(L']'), ipv4<F>(), ipv6<F>(), dns<F>());
	}
	template <class F>
	std::shared_ptr<sp::basic_emoticon<typename F::T>> emoticon(unsigned mask = 7)
	{
		return std::make_shared<sp::basic_emoticon<typename F::T>>(!(mask & 1) ? nullptr : std::is_same_v<F, Char> ? F::set(L"\u00a7\u00a4") : F::set(L"\u263a\u2639"), mask & 2 ? F::cu(L'>') : nullptr, F::set(L":;="), mask & 4 ? F::cu(L'-') : nullptr, F::set(L")(DP"));
	}
	template <class F>
	std::shared_ptr<sp::basic_date<typename F::T>> date(int mask, bool day = true, bool year = true)
	{
		return std::make_shared<sp::basic_date<typename F::T>>(mask, day ? int10<F>() : nullptr, int10<F>(), year ? int10<F>() : nullptr, F::set(L"./-"), F::space());
	}
	template <class F>
	std::shared_ptr<sp::basic_time<typename F::T>> time(unsigned mask = 7)
	{
		return std::make_shared<sp::basic_time<typename F::T>>(int10<F>(), int10<F>(), mask & 1 ? int10<F>() : nullptr, mask & 2 ? int10<F>() : nullptr, F::set(L":."), mask & 4 ? F::cu(L',') : nullptr);
	}
	template <class F>
	std::shared_ptr<sp::basic_angle<typename F::T>> angle(bool decimal = true, unsigned mask = 3)
	{
		using T = typename F::T;
		return std::make_shared<sp::basic_angle<T>>(int10<F>(), F::cu(L'\u00b0'), int10<F>(), F::cu(L'\''), mask & 1 ? int10<F>() : nullptr, mask & 2 ? F::cu(L'"') : nullptr,
			decimal ? P<T>(std::make_shared<sp::basic_sequence<T>>(std::vector<P<T>>{ F::cu(L','), int10<F>() })) : nullptr);
	}
	template <class F>
	std::shared_ptr<sp::basic_phone_number<typename F::T>> phone(unsigned mask = 15)
	{
		return std::make_shared<sp::basic_phone_number<typename F::T>>(F::set(L"0123456789"), mask & 1 ? F::cu(L'+') : nullptr,
			mask & 2 && !(mask & 16) ? F::set(L"([") : nullptr, mask & 2 && !(mask & 32) ? F::set(L")]") : nullptr, mask & 4 ? F::set(L"-/.") : nullptr, mask & 8 ? F::space() : nullptr);
	}
	template <class F> std::shared_ptr<sp::basic_iban<typename F::T>> iban(bool space = true) { return std::make_shared<sp::basic_iban<typename F::T>>(space ? F::space() : nullptr); }
	template <class F> std::shared_ptr<sp::basic_creditor_reference<typename F::T>> creditor(bool space = true) { return std::make_shared<sp::basic_creditor_reference<typename F::T>>(space ? F::space() : nullptr); }
	template <class F> std::shared_ptr<sp::basic_si_reference<typename F::T>> si_reference(bool space = true) { return std::make_shared<sp::basic_si_reference<typename F::T>>(space ? F::space() : nullptr); }
	template <class F>
	std::shared_ptr<sp::basic_chemical_formula<typename F::T>> chemical()
	{
		using T = typename F::T;
		return std::make_shared<sp::basic_chemical_formula<T>>(
			std::make_shared<sp::basic_branch<T>>(std::vector<P<T>>{ F::str(L"Na"), F::str(L"Cl"), F::str(L"H"), F::str(L"O"), F::str(L"C"), F::str(L"S") }), F::set(L"0123456789\u2082\u2084"), F::set(L"+-"));
	}
	template <class F>
	std::shared_ptr<sp::basic_json_string<typename F::T>> json()
	{
		return std::make_shared<sp::basic_json_string<typename F::T>>(F::cu(L'"'), F::set(L"\"\\", true), F::cu(L'\\'), F::cu(L'/'), F::cu(L'b'), F::cu(L'f'), F::cu(L'n'), F::cu(L'r'), F::cu(L't'), F::cu(L'u'), int16<F>());
	}

	// Text of a match
	inline std::string iv(const stdex::interval<size_t>& i) { return i ? vh::fmt("[%zu,%zu)", i.start, i.end) : std::string("-"); }
	template <class X> std::string part(const X& p) { return p ? iv(p->interval) : std::string("0"); }
	inline void put(std::string&, const char*) {}

	// Text mixed of given tokens and arbitrary characters
	inline std::wstring soup(vh::Rng& r, const std::vector<std::wstring>& tokens, size_t max_tokens = 12, unsigned noise = 12)
	{
		std::wstring s;
		for (size_t n = r.below(max_tokens + 1); n; --n) {
			if (noise && r.chance(1, noise)) s += static_cast<wchar_t>(r.range(0x20, 0x7e));
			else s += r.pick(tokens);
		}
		return s;
	}
	inline std::wstring digits(vh::Rng& r, size_t lo, size_t hi)
	{
		std::wstring s;
		for (size_t n = static_cast<size_t>(r.range(static_cast<int64_t>(lo), static_cast<int64_t>(hi))); n; --n) s += static_cast<wchar_t>(L'0' + r.below(10));
		return s;
	}
	inline std::wstring widen(const std::string& s) { std::wstring r; for (auto ch : s) r += static_cast<wchar_t>(static_cast<uint8_t>(ch)); return r; }
}
