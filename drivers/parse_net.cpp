// P03: network address parsers against an independent reading of their grammar, and inet_pton for values.
#include "probe.hpp"
#include <arpa/inet.h>

struct Net : In
{
	bool ci = false;      // letter case of schemes does not matter
	bool idn = true;      // letters and digits of any script
	bool any_script;      // is the encoding able to tell them?
	static constexpr size_t npos = SIZE_MAX;

	Net(const std::wstring& w, bool any) : In{ w }, any_script(any) {}

	bool alnum(size_t i) const
	{
		auto ch = at(i);
		if (ch < 0x80) return (L'0' <= ch && ch <= L'9') || (L'a' <= (ch | 0x20) && (ch | 0x20) <= L'z');
		return any_script && wcschr(L"\u017e\u0161\u00df\u03b1\u4e2d", ch);
	}
	size_t hexs(size_t i) const { while (is(i, L"0123456789abcdefABCDEF")) i++; return i; }
	size_t run(size_t i, const wchar_t* set) const { while (at(i) && (is(i, set) || alnum(i))) i++; return i; }
	size_t user(size_t i) const { return run(i, L"-._~%!$&'*+,;="); }
	size_t pass(size_t i) const { return run(i, L"-._~%!$&'*+,;=():"); }
	size_t rest(size_t i) const { return run(i, L"/-._~%!$&'*+,;=():@?#"); }
	size_t scope(size_t i) const { return run(i, L"-_:"); }
};

struct Ip4 { Piece c[4], all; };
static bool ip4(const Net& n, size_t at, Ip4& o)
{
	size_t i = at;
	for (int k = 0; k < 4; k++) {
		if (k && n.at(i++) != L'.') return false;
		size_t b = i, v = 0;
		while (n.dig(i) && v * 10 + static_cast<size_t>(n.at(i) - L'0') <= 255) v = v * 10 + static_cast<size_t>(n.at(i++) - L'0');
		if (i == b) return false;
		o.c[k] = Piece(b, i);
	}
	o.all = Piece(at, i);
	return true;
}
static void ip4_value(const Net& n, const Ip4& o, uint8_t (&v)[4])
{
	for (int k = 0; k < 4; k++) {
		unsigned x = 0;
		for (size_t i = o.c[k].from; i < o.c[k].to; i++) x = x * 10 + static_cast<unsigned>(n.at(i) - L'0');
		v[k] = static_cast<uint8_t>(x);
	}
}

struct Ip6
{
	Piece c[8], all, scope;
	bool zero[8] = {};     // part of ::
	bool odd = false;      // not claimed: :: that stands for nothing, overlong groups
	size_t plain_end = 0;  // without scope
};
static bool ip6(const Net& n, size_t at, bool scoped, Ip6& o)
{
	std::vector<Piece> g;
	size_t i = at, last = at, comp = SIZE_MAX;
	if (n.at(i) == L':') {
		if (n.at(i + 1) != L':') return false;
		comp = 0;
		last = i += 2;
	}
	for (;;) {
		size_t e = i;
		while (n.hexs(e) > e && e < i + 4) e++;
		if (e == i) break;
		if (n.at(i) == L'0' && n.hexs(i) > i + 4) o.odd = true;
		g.push_back(Piece(i, e));
		last = i = e;
		if (g.size() == 8) break;
		if (n.at(i) != L':') break;
		if (n.at(i + 1) != L':') { i++; continue; }
		if (comp != SIZE_MAX) break;
		comp = g.size();
		last = i += 2;
	}
	if (comp != SIZE_MAX && g.size() == 8) o.odd = true;
	if (o.odd) return true;
	if (comp == SIZE_MAX && g.size() < 8) return false;
	size_t k = 0, skip = 8 - g.size();
	for (size_t j = 0; j < 8; j++) {
		if (j >= comp && j < comp + skip) o.zero[j] = true;
		else o.c[j] = g[k++];
	}
	o.plain_end = last;
	if (scoped && n.at(last) == L'%') {
		size_t e = n.scope(last + 1);
		if (e > last + 1) o.scope = Piece(last + 1, e), last = e;
	}
	o.all = Piece(at, last);
	return true;
}

static size_t dns_end(const Net& n, size_t at, bool absolute) // npos if none
{
	size_t i = at, good = Net::npos;
	for (size_t labels = 0; labels < 127; labels++) {
		auto edge = [&](size_t k) { auto ch = n.at(k); return ch && (n.idn ? n.alnum(k) : ch < 0x80 && n.alnum(k)); };
		if (!edge(i)) break;
		size_t e = i + 1;
		for (size_t k = e; edge(k) || n.at(k) == L'-'; k++) if (edge(k)) e = k + 1;
		good = e;
		if (n.at(e) != L'.') break;
		i = e + 1;
		if (absolute) good = i;
	}
	return good;
}

static const std::vector<std::wstring> hosts = { L"a", L"example.com", L"www", L"x-1.org", L"a--b", L"-", L".", L"..", L"9", L"_", L"\u017elap", L"\u0161-\u017e.si", L"\u4e2d.cn", L"org.", L" ", L"/", L"1.2.3.4", L"com-", L"A.B.C" };
static const std::vector<std::wstring> tok4 = { L"0", L"1", L"10", L"127", L"192", L"255", L"256", L"999", L"01", L"000", L".", L".", L".", L"..", L":", L" ", L"x" };
static const std::vector<std::wstring> tok6 = { L"0", L"1", L"abcd", L"FFFF", L"fe80", L"12345", L":", L":", L":", L"::", L":::", L"%", L"%eth0", L"%1-a", L"1.2.3.4", L".", L"[", L"]", L"g", L":1", L"::2" };
static const std::vector<std::wstring> toku = { L"http", L"ftp", L"mailto", L"file", L"HTTP", L"Ftp", L":", L"/", L"//", L"://", L"@", L"user", L"pass", L"example.com", L"www.", L"127.0.0.1", L"[::1]", L"[fe80::1%eth0]", L"[1:2:3:4:5:6:7:8]", L"[10.0.0.1]", L":80", L":8080", L"?", L"#", L"a=b", L"&", L"%20", L"path/to", L" ", L"\u0161", L".", L"(x)", L"~", L"<", L"\"" };

template <class F> static std::wstring fit(std::wstring w)
{
	if constexpr (sizeof(typename F::T) == 1 && !F::sgml)
		for (auto& ch : w) if (ch > 0x7e) ch = 0xbe;
	return w;
}
template <class F> static Net net(const std::wstring& w) { return Net(w, F::sgml || sizeof(typename F::T) > 1); }

static std::wstring a_ip4(Rng& r)
{
	std::wstring s;
	for (int k = 0; k < 4; k++) {
		if (k) s += L'.';
		if (r.chance(1, 10)) s += std::wstring(1 + r.below(2), L'0');
		s += std::to_wstring(r.chance(1, 20) ? r.below(1000) : r.coin() ? r.below(256) : r.one<uint64_t>({ 0, 1, 10, 127, 172, 192, 255 }));
	}
	return s;
}
static std::wstring a_ip6(Rng& r)
{
	auto group = [&] {
		std::wstring s;
		for (size_t n = 1 + r.below(4); n; --n) s += L"0123456789abcdefABCDEF"[r.below(22)];
		return s;
	};
	std::wstring s;
	size_t n = r.coin() ? 8 : r.below(8), comp = n < 8 || r.chance(1, 12) ? r.below(n + 1) : SIZE_MAX;
	for (size_t i = 0; i < n; i++) {
		if (i == comp) s += L"::";
		else if (i) s += L':';
		s += group();
	}
	if (comp == n) s += L"::";
	if (r.chance(1, 4)) s += L"%" + r.one<std::wstring>({ L"eth0", L"1", L"a-b_c", L"", L"lo:0" });
	if (r.chance(1, 8)) s += r.one<std::wstring>({ L":", L"::", L":1", L"::1", L":x" });
	return s;
}
static std::wstring a_dns(Rng& r)
{
	std::wstring s;
	size_t labels = r.chance(1, 40) ? 120 + r.below(10) : r.chance(1, 4) ? 1 + r.below(6) : 1 + r.below(3);
	for (size_t i = 0; i < labels; i++) {
		if (i) s += L'.';
		s += labels > 10 ? std::wstring(1, L'a' + static_cast<wchar_t>(r.below(26))) : r.one<std::wstring>({ L"www", L"example", L"com", L"x1", L"1", L"a-b", L"xn--a", L"\u0161ola", L"A", L"si" });
	}
	if (r.chance(1, 5)) s += L'.';
	if (r.chance(1, 10)) s += r.one<std::wstring>({ L"-", L"-.", L"..", L".-a" });
	return s;
}

template <class X, class Q> static void check_ip4(Q& q, X& p, const Net& n, const Ip4& o)
{
	static const char* nm[] = { "component 0", "component 1", "component 2", "component 3" };
	uint8_t v[4];
	ip4_value(n, o, v);
	for (int k = 0; k < 4; k++) q.expect("IPv4 component", nm[k], p.components[k], o.c[k]);
	VH_CHECK(q.c, !memcmp(&p.value, v, 4), "IPv4 value", "%s: value is %02x, must be %u.%u.%u.%u", q.where().c_str(), static_cast<unsigned>(p.value.s_addr), v[0], v[1], v[2], v[3]);
}
template <class X, class Q> static void check_ip6(Q& q, X& p, const Net& n, const Ip6& o)
{
	std::string s;
	for (size_t i = o.all.from; i < o.plain_end; i++) s += static_cast<char>(n.at(i));
	uint8_t v[16];
	if (inet_pton(AF_INET6, s.c_str(), v) != 1) { q.c.fail("oracle", "%s: %s is not an IPv6 address", q.where().c_str(), s.c_str()); return; }
	char got[64] = "";
	inet_ntop(AF_INET6, &p.value, got, sizeof(got));
	VH_CHECK(q.c, !memcmp(&p.value, v, 16), "IPv6 value", "%s: value is %s", q.where().c_str(), got);
	for (int k = 0; k < 8; k++) {
		if (o.zero[k]) VH_CHECK(q.c, p.components[k].empty(), "IPv6 component", "%s: component %d is %s, must be empty", q.where().c_str(), k, iv(p.components[k]).c_str());
		else q.expect("IPv6 component", fmt("component %d", k).c_str(), p.components[k], o.c[k]);
	}
	q.part("IPv6 scope", "the scope ID", p.scope_id, o.scope);
}

VH_GROUP(ipv4, 60000, 1500000, 15000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		size_t start;
		auto w = fit<F>(mess(c.rng, a_ip4(c.rng), tok4, start));
		auto n = net<F>(w);
		Ip4 o;
		bool ok = ip4(n, start, o);
		Probe<F> q(c, w, start, F::enc(w, c.rng));
		auto p = kit::ipv4<F>();
		q.run(*p);
		if (q.whole("IPv4", ok ? o.all : Piece(), p->interval)) check_ip4(q, *p, n, o);
	});
}
VH_GROUP(ipv6, 100000, 2500000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		size_t start;
		bool scoped = c.rng.coin();
		auto w = fit<F>(mess(c.rng, a_ip6(c.rng), tok6, start));
		auto n = net<F>(w);
		Ip6 o;
		bool ok = ip6(n, start, scoped, o);
		if (ok && o.odd) return;
		Probe<F> q(c, w, start, F::enc(w, c.rng));
		auto p = kit::ipv6<F>(scoped);
		q.run(*p);
		if (q.whole("IPv6", ok ? o.all : Piece(), p->interval)) check_ip6(q, *p, n, o);
	});
}
VH_GROUP(dns, 60000, 1500000, 15000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		size_t start;
		bool absolute = c.rng.coin();
		auto w = fit<F>(mess(c.rng, a_dns(c.rng), hosts, start));
		auto n = net<F>(w);
		n.idn = c.rng.coin();
		if (absolute && std::count(w.begin() + static_cast<ptrdiff_t>(start), w.end(), L'.') > 125) return;
		size_t e = dns_end(n, start, absolute);
		Probe<F> q(c, w, start, F::enc(w, c.rng));
		auto p = kit::dns<F>(absolute, n.idn);
		q.run(*p);
		q.whole("DNS", e != Net::npos ? Piece(start, e) : Piece(), p->interval);
	});
}

struct Host { Ip4 v4; Ip6 v6; Piece dns, all; };
// Host; IPv4 addresses are in brackets in mail addresses
static bool host(const Net& n, size_t at, bool mail, Host& h)
{
	Ip4 v4;
	if (mail ? n.at(at) == L'[' && ip4(n, at + 1, v4) && n.at(v4.all.to) == L']' : ip4(n, at, v4)) {
		h.v4 = v4;
		h.all = Piece(at, v4.all.to + (mail ? 1 : 0));
		return true;
	}
	Ip6 v6;
	if (n.at(at) == L'[' && ip6(n, at + 1, true, v6) && (v6.odd || n.at(v6.all.to) == L']')) {
		h.v6 = v6;
		h.all = Piece(at, v6.all.to + 1);
		return true;
	}
	size_t e = dns_end(n, at, false);
	if (e == Net::npos) return false;
	h.all = h.dns = Piece(at, e);
	return true;
}
template <class Q, class X> static void check_host(Q& q, X& p, const Net& n, const Host& h)
{
	using T = typename std::remove_reference<decltype(q.x[0])>::type;
	q.part("IPv4 host", "the IPv4 host", p.ipv4_host, h.v4.all);
	q.part("IPv6 host", "the IPv6 host", p.ipv6_host, h.v6.all);
	q.part("DNS host", "the DNS host", p.dns_host, h.dns);
	if (h.v4.all.on) check_ip4(q, dynamic_cast<sp::basic_ipv4_address<T>&>(*p.ipv4_host), n, h.v4);
	if (h.v6.all.on) check_ip6(q, dynamic_cast<sp::basic_ipv6_address<T>&>(*p.ipv6_host), n, h.v6);
}

static std::wstring a_host(Rng& r, bool mail)
{
	switch (r.below(4)) {
	case 0: return mail ? L"[" + a_ip4(r) + L"]" : a_ip4(r);
	case 1: return L"[" + a_ip6(r) + L"]";
	default: return a_dns(r);
	}
}
static std::wstring mark(Rng& r, std::wstring s) { while (r.chance(1, 5)) s.insert(r.below(s.size() + 1), 1, static_cast<wchar_t>(r.coin() ? L"-._~%!$&'()*+,;=:@/"[r.below(19)] : L'!' + r.below(94))); return s; }
static std::wstring a_user(Rng& r) { return mark(r, soup(r, { L"john", L".", L"doe", L"%40", L"+tag", L"&", L"_", L"1", L"\u017e", L"=" }, 4, 0)); }
static std::wstring a_path(Rng& r)
{
	std::wstring s = r.chance(2, 3) ? L"/" : L"";
	s += soup(r, { L"a", L"/", L"index.html", L"%20", L"..", L"~x", L"\u0161" }, 4, 0);
	s = mark(r, s);
	if (r.coin()) s += L"?" + mark(r, soup(r, { L"a=b", L"&", L"c", L"=", L"?", L"%26", L"/" }, 4, 0));
	if (r.coin()) s += L"#" + soup(r, { L"top", L"?", L"#", L"x" }, 2, 0);
	return s;
}

struct Path { Piece all, path, query, mark; };
static Path path(const Net& n, size_t at)
{
	Path o;
	size_t e = n.rest(at);
	if (e == at) return o;
	o.all = Piece(at, e);
	auto find = [&](size_t from, const wchar_t* set) { while (from < e && !n.is(from, set)) from++; return from; };
	size_t a = find(at, L"?#");
	o.path = Piece(at, a);
	if (a < e && n.at(a) == L'?') {
		size_t b = find(a + 1, L"#");
		o.query = Piece(a + 1, b);
		a = b;
	}
	if (a < e) o.mark = Piece(a + 1, e);
	return o;
}
template <class Q, class X> static void check_path(Q& q, X& p, const Path& o)
{
	q.expect("path", "the path", p.path, o.path);
	q.expect("query", "the query", p.query, o.query);
	q.expect("bookmark", "the bookmark", p.bookmark, o.mark);
}

VH_GROUP(url, 150000, 3000000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		using T = typename F::T;
		auto& r = c.rng;
		size_t start;
		std::wstring good;
		if (r.chance(1, 8)) good = a_path(r);
		else {
			auto scheme = r.one<std::wstring>({ L"http://", L"http://", L"ftp://", L"mailto:", L"file://", L"", L"HTTP://", L"Mailto:" });
			good = scheme;
			bool mail = (scheme[0] | 0x20) == L'm';
			if (mail || r.chance(1, 3)) {
				good += a_user(r);
				if (r.chance(1, mail ? 8 : 2)) good += L":" + a_user(r) + r.one<std::wstring>({ L"", L":", L"(" });
				good += L"@";
			}
			if (scheme != L"file://" || r.chance(1, 4)) good += a_host(r, mail);
			if (r.chance(1, 3)) good += L":" + digits(r, r.chance(1, 8) ? 0 : 1, 5);
			if (r.coin()) good += a_path(r);
		}
		auto w = fit<F>(mess(r, good, toku, start));
		auto n = net<F>(w);
		Probe<F> q(c, w, start, F::enc(w, r));
		if (r.chance(1, 6)) {
			auto o = path(n, start);
			auto p = kit::url_path<F>();
			q.run(*p);
			if (q.whole("URL path", o.all, p->interval)) check_path(q, *p, o);
			return;
		}
		auto is = [&](const wchar_t* s, size_t& e) {
			size_t i = start;
			for (; *s; s++, i++) {
				wchar_t ch = n.at(i);
				if ((q.flags & sp::match_case_insensitive) && L'A' <= ch && ch <= L'Z') ch |= 0x20;
				if (ch != *s) return false;
			}
			e = i;
			return true;
		};
		Piece m, http, ftp, mailto, file, user, pass, port;
		Host h;
		Path pth;
		size_t i = start, e = 0;
		if (is(L"http://", e)) http = Piece(start, start + 4), i = e;
		else if (is(L"ftp://", e)) ftp = Piece(start, start + 3), i = e;
		else if (is(L"mailto:", e)) mailto = Piece(start, start + 6), i = e;
		else if (is(L"file://", e)) file = Piece(start, start + 4), i = e;
		bool ok = true;
		if (mailto.on) {
			size_t u = n.user(i);
			ok = u > i && n.at(u) == L'@' && host(n, u + 1, true, h);
			if (ok) user = Piece(i, u), m = Piece(start, h.all.to);
		}
		else if (file.on) {
			pth = path(n, i);
			m = Piece(start, pth.all.on ? pth.all.to : i);
		}
		else {
			if (http.on || ftp.on) {
				size_t u = n.user(i);
				if (u > i) {
					size_t v = n.at(u) == L':' ? n.pass(u + 1) : u;
					if (v > u + 1 && n.at(v) == L'@') user = Piece(i, u), pass = Piece(u + 1, v), i = v + 1;
					else if (n.at(u) == L'@') user = Piece(i, u), i = u + 1;
				}
			}
			ok = host(n, i, false, h);
			if (ok) {
				i = h.all.to;
				if (!h.v6.odd && n.at(i) == L':') {
					size_t v = n.digs(i + 1);
					if (v > i + 1) port = Piece(i + 1, v), i = v;
				}
				pth = path(n, i);
				if (pth.all.on) i = pth.all.to;
				m = Piece(start, i);
			}
		}
		if (h.v6.odd) return;
		auto p = kit::url<F>();
		if (r.chance(1, 3)) { // used before
			auto u = F::enc(fit<F>(r.one<std::wstring>({ L"http://u:p@a.b:80/c?d#e", L"ftp://u@[::1]:1/x", L"mailto:a@[1.2.3.4]", L"file:///a?b#c" })), r);
			p->match(u.s.data(), 0, u.s.size());
		}
		q.run(*p);
		if (!q.whole("URL", ok ? m : Piece(), p->interval)) return;
		q.part("scheme", "the http scheme", p->http_scheme, http);
		q.part("scheme", "the ftp scheme", p->ftp_scheme, ftp);
		q.part("scheme", "the mailto scheme", p->mailto_scheme, mailto);
		q.part("scheme", "the file scheme", p->file_scheme, file);
		q.part("username", "the username", p->username, user);
		q.part("password", "the password", p->password, pass);
		check_host(q, *p, n, h);
		q.part("port", "the port", p->port, port);
		if (port.on && port.to - port.from <= 19) {
			size_t v = 0;
			for (size_t k = port.from; k < port.to; k++) v = v * 10 + static_cast<size_t>(w[k] - L'0');
			q.value("port value", dynamic_cast<sp::basic_integer<T>&>(*p->port).value, v);
		}
		q.part("path", "the path", p->path, pth.all);
		if (pth.all.on) check_path(q, dynamic_cast<sp::basic_url_path<T>&>(*p->path), pth);
		if (pass.on) c.count("URLs with passwords");
		if (h.v6.all.on) c.count("URLs with IPv6 hosts");
	});
}
VH_GROUP(email, 60000, 1500000, 10000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		auto w = fit<F>(mess(r, a_user(r) + L"@" + a_host(r, !r.chance(1, 6)), toku, start));
		auto n = net<F>(w);
		size_t u = n.user(start);
		Host h;
		bool ok = u > start && n.at(u) == L'@' && host(n, u + 1, true, h);
		if (h.v6.odd) return;
		Probe<F> q(c, w, start, F::enc(w, r));
		auto p = kit::email<F>();
		q.run(*p);
		if (!q.whole("e-mail", ok ? Piece(start, h.all.to) : Piece(), p->interval)) return;
		q.part("username", "the username", p->username, Piece(start, u));
		check_host(q, *p, n, h);
	});
}

// Letters of other scripts are letters where the locale can tell.
static const bool locale_set = [] { std::locale::global(std::locale("C.UTF-8")); return true; }();
VH_MAIN
