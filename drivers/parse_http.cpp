// P06: HTTP parsers against an independent reading of the grammars.
#include "probe.hpp"

static const size_t no = SIZE_MAX;
struct Http : In
{
	Http(const std::wstring& s) : In{ s } {}
	bool ws(size_t i) const { auto ch = at(i); return ch == L' ' || (9 <= ch && ch <= 13); }
	size_t brk(size_t i) const { return at(i) == L'\n' ? i + 1 : at(i) == L'\r' && at(i + 1) == L'\n' ? i + 2 : no; }
	// Text generated for whatever uses this has no line breaks that are not followed by space.
	size_t skip(size_t i) const { while (ws(i)) i++; return i; }
	bool plain(size_t i) const { auto ch = at(i); return ch >= 0x20 && ch != 0x7f; }
	template <class P> size_t run(size_t i, P p) const { size_t e = i; while (at(e) && p(e)) e++; return e > i ? e : no; }
	size_t token(size_t i) const { return run(i, [&](size_t k) { return plain(k) && !is(k, L" ()<>@,;:\\\"/[]?={}"); }); }
	size_t quoted(size_t i) const
	{
		if (at(i) != L'"') return no;
		for (size_t e = i + 1;;) {
			if (at(e) == L'"') return e + 1;
			if (at(e) == L'\\') { if (!at(e + 1)) return no; e += 2; }
			else if (at(e) >= 0x20 || ws(e)) e++;
			else return no;
		}
	}
};

// Expected parts
struct Value { Piece all, str, content, tok; };
struct Named { Piece all, name; Value value; };
static bool value(const Http& in, size_t i, Value& v)
{
	v = Value();
	size_t e = in.quoted(i);
	if (e != no) { v.all = v.str = Piece(i, e); v.content = Piece(i + 1, e - 1); return true; }
	e = in.token(i);
	if (e != no) { v.all = v.tok = Piece(i, e); return true; }
	return false;
}
static bool named(const Http& in, size_t i, Named& n, bool dollar = false)
{
	n = Named();
	size_t b = i;
	if (dollar && in.at(b++) != L'$') return false;
	size_t e = in.token(b);
	if (e == no) return false;
	Piece name(b, e);
	e = in.skip(e);
	if (in.at(e) != L'=') return false;
	Value v;
	if (!value(in, in.skip(e + 1), v)) return false;
	n.all = Piece(i, v.all.to);
	n.name = name;
	n.value = v;
	return true;
}
template <class N> static std::vector<Named> params(const Http& in, size_t& e, N next)
{
	std::vector<Named> r;
	for (;;) {
		size_t k = in.skip(e);
		if (in.at(k) != L';') return r;
		Named n;
		if (!next(in.skip(k + 1), n)) return r;
		r.push_back(n);
		e = n.all.to;
	}
}

using Q = Probe<Char>;
static void check_value(Q& q, const sp::http_value& v, const Value& m)
{
	q.expect("value", "value", v.interval, m.all);
	q.expect("value string", "value as string", v.string.interval, m.str);
	q.expect("value content", "content of value", v.string.content, m.content);
	q.expect("value token", "value as token", v.token.interval, m.tok);
}
template <class X> static void check_named(Q& q, const X& p, const Named& m)
{
	q.expect("parameter", "parameter", p.interval, m.all);
	q.expect("name", "name", p.name.interval, m.name);
	check_value(q, p.value, m.value);
}
template <class X> static void check_params(Q& q, const X& l, const std::vector<Named>& m)
{
	VH_CHECK(q.c, l.size() == m.size(), "parameters", "%s: %zu parameters, must be %zu", q.where().c_str(), l.size(), m.size());
	auto i = l.begin();
	for (size_t k = 0; k < m.size() && i != l.end(); k++, ++i) check_named(q, *i, m[k]);
	q.c.count("parameters", m.size());
}

static std::wstring gap(Rng& r) { return r.chance(1, 4) ? r.one({ L" ", L"\t", L"  ", L"\r\n ", L"\n\t", L" \r\n " }) : L""; }
static std::wstring token(Rng& r)
{
	static const Words t = { L"a", L"text", L"html", L"UTF-8", L"*", L"q", L"Path", L"x.y+z", L"%2f", L"!#$&'*", L"\u0160", L"\u00e8\u0161", L"0" };
	std::wstring s;
	for (size_t n = r.range(1, 2); n; --n) s += r.pick(t);
	for (auto& ch : s) ch &= 0xff;
	return s;
}
static std::wstring quoted(Rng& r)
{
	static const Words t = { L"a", L"b c", L"\\\"", L"\\\\", L",", L";", L"=", L"\t", L"\r\n ", L"\u00e8", L"\u00ff\u0080", L"/", L"\\n" };
	return L"\"" + soup(r, t, 5, 8) + L"\"";
}
static std::wstring some_value(Rng& r) { return r.coin() ? token(r) : quoted(r); }
static std::wstring pair(Rng& r) { return token(r) + gap(r) + (r.chance(1, 15) ? L"" : L"=") + gap(r) + some_value(r); }

// Line breaks must be followed by space: what is otherwise is not specified.
static bool folded(const std::wstring& w)
{
	Http in(w);
	for (size_t i = 0; i < w.size(); i++) {
		size_t b = in.brk(i);
		if (b != no ? !in.is(b, L" \t") : w[i] == L'\r') return false;
	}
	return true;
}
static const Words vals = { L"a", L"bc", L"\"", L"\"x\"", L"\\", L"\\\"", L"=", L";", L"; ", L",", L"/", L" ", L"\t", L"\r\n ", L"$", L"*", L"\u00e8", L"q", L"q=0.5", L"\x01", L"\x7f", L":" };

// What all the others are made of
VH_GROUP(bytes, 60000, 600000, 1000)
{
	auto& r = c.rng;
	size_t start;
	static const Words some = { L"a", L"\r\n ", L"\r\n\t", L"\n ", L" ", L"\t", L"\r\n", L"\n", L"\x01", L"\x1f", L"\x7f", L"\u00ff", L"\"", L"\u0080" };
	unsigned kind = static_cast<unsigned>(r.below(3));
	auto w = mess(r, soup(r, some, 4, 10), some, start);
	Http in(w);
	if (kind && !folded(w)) return;
	Q q(c, w, start, Char::enc(w, r));
	switch (kind) {
	case 0: {
		sp::http_line_break p;
		q.run(p);
		size_t e = in.brk(start);
		q.whole("line break", e != no ? Piece(start, e) : Piece(), p.interval);
		break;
	}
	case 1: {
		sp::http_space p;
		q.run(p);
		size_t e = in.skip(start);
		q.whole("space", e != start ? Piece(start, e) : Piece(), p.interval);
		break;
	}
	case 2: {
		sp::http_text_char p;
		q.run(p);
		size_t e = in.skip(start);
		if (e == start && in.at(start) >= 0x20) e++;
		q.whole("text byte", e != start ? Piece(start, e) : Piece(), p.interval);
		break;
	}
	}
}

VH_GROUP(values, 150000, 3000000, 20000)
{
	auto& r = c.rng;
	size_t start;
	unsigned kind = static_cast<unsigned>(r.below(4));
	auto w = mess(r, kind == 0 ? token(r) : kind == 1 ? quoted(r) : kind == 2 ? some_value(r) : pair(r), vals, start);
	for (auto& ch : w) if (ch == L'"' && r.chance(1, 40)) ch = L' ';
	if (!folded(w)) return;
	Http in(w);
	Q q(c, w, start, Char::enc(w, r));
	Value v;
	switch (kind) {
	case 0: {
		sp::http_token p;
		q.run(p);
		size_t e = in.token(start);
		q.whole("token", e != no ? Piece(start, e) : Piece(), p.interval);
		break;
	}
	case 1: {
		sp::http_quoted_string p;
		q.run(p);
		size_t e = in.quoted(start);
		q.whole("quoted string", e != no ? Piece(start, e) : Piece(), p.interval);
		q.expect("content", "content", p.content, e != no ? Piece(start + 1, e - 1) : Piece());
		break;
	}
	case 2: {
		sp::http_value p;
		if (r.coin()) { p.match("\"abc\"", 0, 5); }
		if (r.coin()) { p.match("abc", 0, 3); }
		q.run(p);
		value(in, start, v);
		q.whole("value or token", v.all, p.interval);
		check_value(q, p, v);
		break;
	}
	default: {
		sp::http_parameter p;
		if (r.coin()) { p.match("x=abc", 0, 5); }
		q.run(p);
		Named n;
		named(in, start, n);
		q.whole("name=value", n.all, p.interval);
		check_named(q, p, n);
	}
	}
}

VH_GROUP(media, 80000, 1500000, 10000)
{
	auto& r = c.rng;
	size_t start;
	std::wstring good = token(r) + gap(r) + L"/" + gap(r) + token(r);
	for (size_t n = r.below(4); n; --n) good += gap(r) + L";" + gap(r) + pair(r);
	auto w = mess(r, good, vals, start);
	if (!folded(w)) return;
	Http in(w);
	Q q(c, w, start, Char::enc(w, r));
	Piece type, sub, range;
	size_t e = in.token(start), k = e == no ? no : in.skip(e);
	if (k != no && in.at(k) == L'/') {
		k = in.skip(k + 1);
		size_t e2 = in.token(k);
		if (e2 != no) { type = Piece(start, e); sub = Piece(k, e2); range = Piece(start, e2); }
	}
	if (r.chance(1, 4)) {
		sp::http_media_range p;
		q.run(p);
		q.whole("media range", range, p.interval);
		q.expect("media type", "type", p.type.interval, type);
		q.expect("media subtype", "subtype", p.subtype.interval, sub);
	}
	else {
		sp::http_media_type p;
		if (r.coin()) { p.match("a/b;c=d", 0, 7); }
		q.run(p);
		std::vector<Named> ps;
		if (range.on) { size_t to = range.to; ps = params(in, to, [&](size_t i, Named& n) { return named(in, i, n); }); range.to = to; }
		q.whole("media type with parameters", range, p.interval);
		q.expect("media type", "type", p.type.interval, type);
		q.expect("media subtype", "subtype", p.subtype.interval, sub);
		check_params(q, p.params, ps);
	}
}

VH_GROUP(cookie, 80000, 1500000, 10000)
{
	auto& r = c.rng;
	size_t start;
	std::wstring good = pair(r);
	for (size_t n = r.below(4); n; --n) good += gap(r) + L";" + gap(r) + (r.chance(1, 12) ? L"" : L"$") + pair(r);
	auto w = mess(r, good, vals, start);
	if (!folded(w)) return;
	Http in(w);
	Q q(c, w, start, Char::enc(w, r));
	Named n;
	std::vector<Named> ps;
	Piece all;
	if (named(in, start, n)) {
		size_t to = n.all.to;
		ps = params(in, to, [&](size_t i, Named& m) { return named(in, i, m, true); });
		all = Piece(start, to);
	}
	sp::http_cookie p;
	if (r.coin()) { p.match("a=b; $c=d", 0, 9); }
	q.run(p);
	q.whole("cookie", all, p.interval);
	q.expect("cookie name", "name", p.name.interval, n.name);
	check_value(q, p.value, n.value);
	check_params(q, p.params, ps);
}

// URLs
struct Url
{
	Piece all, server, port;
	uint16_t number = 80;
	bool bad_port = false; // not specified
	std::vector<Piece> segments;
	std::vector<std::pair<Piece, Piece>> params;
};
static bool url(const Http& in, size_t i, Url& u)
{
	u = Url();
	size_t e = i;
	auto stop = [&](const wchar_t* set) { return [&in, set](size_t k) { return in.plain(k) && !in.ws(k) && !in.is(k, set); }; };
	bool scheme = true;
	for (size_t k = 0; k < 7; k++) { auto ch = in.at(i + k); if (ch >= L'A' && ch <= L'Z') ch |= 0x20; scheme = scheme && ch == L"http://"[k]; }
	if (scheme) {
		size_t s = in.run(i + 7, stop(L":/"));
		if (s == no) return false;
		u.server = Piece(i + 7, s);
		e = s;
		if (in.at(e) == L':') {
			size_t d = in.digs(e + 1), v = 0;
			for (size_t k = e + 1; k < d && v < 100000; k++) v = v * 10 + static_cast<size_t>(in.at(k) - L'0');
			if (d > e + 1 && v < 65536) { u.port = Piece(e + 1, d); u.number = static_cast<uint16_t>(v); e = d; }
			else { u.bad_port = true; if (d > e + 1) return false; e++; }
		}
	}
	if (in.at(e) != L'/') return false;
	while (in.at(e) == L'/') {
		size_t s = in.run(e + 1, stop(L"?/"));
		if (s == no) s = e + 1;
		u.segments.push_back(Piece(e + 1, s));
		e = s;
	}
	if (in.at(e) == L'?') {
		e++;
		for (;;) {
			if (in.at(e) == L'&') { e++; continue; }
			size_t s = in.run(e, stop(L"&="));
			if (s == no) break;
			Piece n(e, s), v;
			e = s;
			if (in.at(e) == L'=') {
				s = in.run(e + 1, stop(L"&"));
				if (s == no) s = e + 1;
				v = Piece(e + 1, s);
				e = s;
			}
			u.params.push_back({ n, v });
		}
	}
	u.all = Piece(i, e);
	return true;
}
static void check_url(Q& q, const sp::http_url& p, const Url& u)
{
	q.expect("server", "server", p.server.interval, u.server);
	if (u.all.on && !u.bad_port) {
		q.expect("port", "port", p.port.interval, u.port);
		q.value("port number", p.port.value, u.number);
	}
	VH_CHECK(q.c, p.path.segments.size() == u.segments.size(), "path", "%s: %zu segments, must be %zu", q.where().c_str(), p.path.segments.size(), u.segments.size());
	for (size_t i = 0; i < u.segments.size() && i < p.path.segments.size(); i++) q.expect("segment", "path segment", p.path.segments[i].interval, u.segments[i]);
	if (!u.segments.empty()) q.expect("path extent", "path", p.path.interval, Piece(u.segments.front().from - 1, u.segments.back().to));
	VH_CHECK(q.c, p.params.size() == u.params.size(), "query", "%s: %zu parameters, must be %zu", q.where().c_str(), p.params.size(), u.params.size());
	auto k = p.params.begin();
	for (size_t i = 0; i < u.params.size() && k != p.params.end(); i++, ++k) {
		q.expect("query name", "query parameter name", k->name, u.params[i].first);
		q.expect("query value", "query parameter value", k->value, u.params[i].second);
	}
}
static std::wstring some_url(Rng& r)
{
	std::wstring s;
	if (r.chance(1, 3)) {
		s += r.one({ L"http://", L"HTTP://", L"hTTp://" });
		s += r.one({ L"example.com", L"localhost", L"127.0.0.1", L"x", L"\u00e8.si" });
		if (r.coin()) s += L":" + (r.coin() ? digits(r, 1, 4) : std::to_wstring(r.range(65533, 65538)));
	}
	for (size_t n = r.chance(1, 20) ? 0 : r.range(1, 4); n; --n) s += L"/" + (r.chance(1, 4) ? L"" : token(r));
	if (r.coin()) {
		s += L"?";
		for (size_t n = r.below(4); n; --n) {
			s += r.one({ L"a", L"b=c", L"d=", L"e=f=g", L"h%20=/?", L"\u00e8=\u00be", L"x==y", L"&", L"=z" });
			if (n > 1 || r.chance(1, 6)) s += L"&";
		}
	}
	return s;
}
static const Words urls = { L"/", L"//", L"?", L"&", L"=", L":", L"80", L"a", L"http://", L" ", L"\t", L"#", L"\u00e8", L"\x7f" };

VH_GROUP(http_url, 100000, 2000000, 15000)
{
	auto& r = c.rng;
	size_t start;
	auto w = mess(r, some_url(r), urls, start);
	Http in(w);
	Q q(c, w, start, Char::enc(w, r));
	Url u;
	if (!url(in, start, u)) { bool b = u.bad_port; u = Url(); u.bad_port = b; }
	sp::http_url p;
	if (r.coin()) { p.match("http://a:1/b?c=d", 0, 16); }
	q.run(p);
	q.whole("URL", u.all, p.interval);
	check_url(q, p, u);
}

// Protocol, agent, language, weight
struct Proto
{
	Piece all, type, maj, min;
	int version = 0x009;
};
static bool proto(const Http& in, size_t i, Proto& p)
{
	p = Proto();
	size_t s = i;
	while (in.at(s) && !in.ws(s) && in.at(s) != L'/') s++;
	if (in.at(s) != L'/') return false;
	size_t e = s + 1, dot = no;
	while (in.at(e) && !in.ws(e)) { if (in.at(e) == L'.' && dot == no) dot = e; e++; }
	if (!in.at(e)) return false;
	p.all = Piece(i, e);
	p.type = Piece(i, s);
	p.maj = Piece(s + 1, dot == no ? e : dot);
	if (dot != no) p.min = Piece(dot + 1, e);
	auto num = [&](const Piece& x) {
		int v = 0;
		if (x.to == x.from || x.to - x.from > 5) return -1;
		for (size_t k = x.from; k < x.to; k++) if (in.dig(k)) v = v * 10 + in.at(k) - L'0'; else return -1;
		return v > 255 ? -1 : v;
	};
	int a = num(p.maj), b = dot == no ? 0 : num(p.min);
	p.version = a < 0 || b < 0 ? -1 : a * 0x100 + b;
	return true;
}
static void check_proto(Q& q, const sp::http_protocol& p, const Proto& m)
{
	q.expect("protocol type", "protocol type", p.type, m.type);
	q.expect("version major", "major version", p.version_maj, m.maj);
	q.expect("version minor", "minor version", p.version_min, m.min);
	if (m.version >= 0) q.value("version", p.version, static_cast<size_t>(m.version));
}
static std::wstring some_proto(Rng& r) { return r.chance(1, 10) ? L"FTP/1" : L"HTTP/" + (r.coin() ? std::to_wstring(r.below(12)) : std::to_wstring(r.range(0, 255))) + (r.chance(2, 3) ? L"." + std::to_wstring(r.coin() ? r.below(12) : r.range(0, 255)) : L""); }

VH_GROUP(protocol, 40000, 600000, 5000)
{
	auto& r = c.rng;
	size_t start;
	static const Words t = { L"/", L".", L"1", L"0", L"HTTP", L" ", L"\r\n", L"\n", L"x", L"Mozilla" };
	unsigned kind = static_cast<unsigned>(r.below(4));
	std::wstring good;
	if (kind == 2) {
		for (size_t n = r.range(1, 4); n; --n) { good += r.one({ L"sl", L"en", L"SI", L"cyrl", L"x" }); if (n > 1 || r.chance(1, 8)) good += L"-"; }
		if (r.coin()) good += r.one({ L",", L";q=1", L" ", L"-1" });
	}
	else if (kind == 3) good = r.coin() ? digits(r, 1, 2) : r.coin() ? L"0." + digits(r, 0, 4) : digits(r, 1, r.chance(1, 5) ? 40 : 4) + L"." + (r.chance(1, 5) ? std::wstring(r.range(15, 80), L'0') : L"") + digits(r, 1, r.chance(1, 5) ? 40 : 4);
	else good = some_proto(r) + r.one({ L" ", L"\r\n", L"\n", L"" });
	auto w = mess(r, good, t, start);
	Http in(w);
	Q q(c, w, start, Char::enc(w, r));
	switch (kind) {
	case 0: {
		Proto m;
		if (!proto(in, start, m)) m = Proto();
		sp::http_protocol p;
		if (r.coin()) { p.match("HTTP/3.4 ", 0, 9); }
		q.run(p);
		q.whole("protocol", m.all, p.interval);
		check_proto(q, p, m);
		break;
	}
	case 1: {
		size_t e = start;
		while (in.at(e) && !in.ws(e)) e++;
		Piece type, version;
		if (e > start) {
			size_t s = start;
			while (s < e && in.at(s) != L'/') s++;
			type = Piece(start, s);
			if (s < e) version = Piece(s + 1, e);
		}
		sp::http_agent p;
		if (r.coin()) { p.match("a/b ", 0, 4); }
		q.run(p);
		q.whole("agent", e > start ? Piece(start, e) : Piece(), p.interval);
		q.expect("agent type", "agent type", p.type, type);
		q.expect("agent version", "agent version", p.version, version);
		break;
	}
	case 2: {
		std::vector<Piece> m;
		for (size_t e = start;;) {
			size_t s = in.run(e, [&](size_t k) { auto ch = in.at(k) | 0x20; return L'a' <= ch && ch <= L'z'; });
			if (s == no) break;
			m.push_back(Piece(e, s));
			if (in.at(s) != L'-') break;
			e = s + 1;
		}
		sp::http_language p;
		if (r.coin()) { p.match("sl-SI", 0, 5); }
		q.run(p);
		q.whole("language", m.empty() ? Piece() : Piece(start, m.back().to), p.interval);
		VH_CHECK(c, p.components.size() == m.size(), "language components", "%s: %zu components, must be %zu", q.where().c_str(), p.components.size(), m.size());
		for (size_t i = 0; i < m.size() && i < p.components.size(); i++) q.expect("language component", "component", p.components[i], m[i]);
		break;
	}
	default: {
		size_t e = in.digs(start);
		if (in.at(e) == L'.') e = in.digs(e + 1);
		if (e == start + 1 && in.at(start) == L'.') return; // not specified
		sp::http_weight p;
		if (r.coin()) { p.match("0.5", 0, 3); }
		q.run(p);
		q.whole("weight", e > start ? Piece(start, e) : Piece(), p.interval);
		std::string n;
		for (size_t i = start; i < e; i++) n += static_cast<char>(w[i]);
		double v = e > start ? strtod(n.c_str(), nullptr) : 1.0;
		VH_CHECK(c, v > 3e38 ? p.value > 2.9e38f : std::fabs(p.value - v) <= std::fabs(v) * 1e-6 + 1e-30, "weight value", "%s: value is %g, must be %g", q.where().c_str(), p.value, v);
	}
	}
}

VH_GROUP(request, 100000, 2000000, 15000)
{
	auto& r = c.rng;
	size_t start;
	auto sp1 = [&] { return r.one({ L" ", L" ", L"\t", L"  " }); };
	std::wstring good;
	if (r.chance(1, 10)) good += sp1();
	good += r.one({ L"GET", L"POST", L"HEAD", L"OPTIONS", L"x" });
	good += sp1() + some_url(r);
	if (r.chance(4, 5)) good += sp1() + some_proto(r);
	if (r.chance(1, 8)) good += sp1();
	if (r.chance(9, 10)) good += r.coin() ? L"\r\n" : L"\n";
	if (r.coin()) good += L"Host: x\r\n";
	static const Words t = { L" ", L"\r\n", L"\n", L"GET", L"/", L"HTTP/1.1", L"?", L"\t", L"a", L":" };
	auto w = mess(r, good, t, start);
	Http in(w);
	auto blanks = [&](size_t i) { while (in.ws(i) && in.brk(i) == no) i++; return i; };
	Url u;
	Proto m;
	Piece verb, all;
	bool sure = true;
	size_t e = blanks(start), s = e;
	while (in.at(s) && !in.ws(s)) s++;
	if (s > e && in.at(s) && in.brk(s) == no) {
		size_t k = blanks(s);
		if (in.at(k) && in.brk(k) == no && url(in, k, u)) {
			verb = Piece(e, s);
			k = blanks(u.all.to);
			if (in.brk(k) != no) k = in.brk(k);
			else if (!in.at(k)) ;
			else if (k == u.all.to) sure = false; // something stuck to the URL
			else if (proto(in, k, m)) {
				k = m.all.to;
				while (in.at(k) && in.brk(k) == no) k++;
				if (in.brk(k) != no) k = in.brk(k);
			}
			else sure = false; // something else than the protocol follows
			all = Piece(start, k);
		}
	}
	if (!all.on) { m = Proto(); bool b = u.bad_port; u = Url(); u.bad_port = b; }
	Q q(c, w, start, Char::enc(w, r));
	sp::http_request p;
	if (r.coin()) { p.match("GET http://a:1/b?c=d HTTP/3.4\r\n", 0, 31); }
	q.run(p);
	if (!sure) { c.count("not specified"); return; }
	q.whole("request", all, p.interval);
	q.expect("verb", "verb", p.verb, verb);
	check_url(q, p.url, u);
	check_proto(q, p.protocol, m);
}

VH_GROUP(header, 100000, 2000000, 15000)
{
	auto& r = c.rng;
	size_t start;
	std::wstring good;
	for (size_t n = r.range(1, 3); n; --n) {
		good += r.one({ L"Host", L"x-Y", L"A", L"" });
		if (r.chance(1, 8)) good += r.one({ L" ", L"\t" });
		good += L":";
		for (size_t k = r.below(5); k; --k) good += r.one({ L" ", L"\t", L"a", L"b c", L"\r\n ", L"\n\t", L"\"x\"", L"\u00e8", L":", L"  " });
		good += r.one({ L"\r\n", L"\n", L" \r\n", L"" });
	}
	if (r.coin()) good += L"\r\n";
	static const Words t = { L" ", L"\r\n", L"\n", L":", L"\t", L"a", L"Host", L"\r\n ", L"\u00e8" };
	auto w = mess(r, good, t, start);
	Http in(w);
	for (size_t i = 0; i < w.size(); i++) if (w[i] == L'\r' && in.at(i + 1) != L'\n') return; // not specified
	Q q(c, w, start, Char::enc(w, r));
	size_t at = start;
	// All headers there are
	for (;;) {
		q.start = at;
		Piece name, value, all;
		size_t e = at;
		while (in.at(e) && !in.ws(e) && in.at(e) != L':') e++;
		size_t k = e;
		while (k > at && in.ws(k) && in.brk(k) == no) k++;
		if (in.at(k) == L':') {
			name = Piece(at, e);
			size_t first = no, last = no;
			for (k++; in.at(k);) {
				size_t b = in.brk(k);
				if (b != no) {
					k = b;
					if (!in.ws(k) || in.brk(k) != no) break;
				}
				else { if (!in.ws(k)) { if (first == no) first = k; last = k + 1; } k++; }
			}
			if (first != no) value = Piece(first, last);
			all = Piece(at, k);
		}
		sp::http_header p;
		if (r.coin()) { p.match("a: b\r\n", 0, 6); }
		q.run(p);
		bool m = q.whole("header", all, p.interval);
		q.expect("header name", "name", p.name, name);
		q.expect("header value", "value", p.value, value);
		if (!m) break;
		c.count("headers");
		at = all.to;
		if (all.to == all.from) break;
	}
}

// Lists of weighted values
template <class V, class A, class Fn> static void weighted(Case& c, const std::wstring& w, size_t start, size_t to, Fn val)
{
	auto& r = c.rng;
	const std::wstring sub = w.substr(0, to);
	Http in(sub);
	struct El { Piece all, star, value; double f; };
	auto one = [&](size_t i, El& x) {
		x = El{ {}, {}, {}, 1.0 };
		size_t e = no;
		if (in.at(i) == L'*') { e = i + 1; if (std::is_same_v<A, sp::http_any_type> && in.at(e) == L'/' && in.at(e + 1) == L'*') e += 2; x.star = Piece(i, e); }
		else if ((e = val(in, i)) != no) x.value = Piece(i, e);
		else return false;
		size_t k = in.skip(e);
		if (in.at(k) == L';') {
			k = in.skip(k + 1);
			if (in.at(k) == L'q' || in.at(k) == L'Q') {
				k = in.skip(k + 1);
				if (in.at(k) == L'=') {
					k = in.skip(k + 1);
					size_t d = in.digs(k);
					if (d > k) {
						if (in.at(d) == L'.') d = in.digs(d + 1);
						std::string n;
						for (size_t j = k; j < d; j++) n += static_cast<char>(sub[j]);
						x.f = strtod(n.c_str(), nullptr);
						e = d;
					}
				}
			}
		}
		x.all = Piece(i, e);
		return true;
	};
	std::vector<El> must;
	for (size_t i = start;;) {
		while (in.ws(i) || in.at(i) == L',') i++;
		El x;
		if (!one(i, x)) {
			if (in.at(i)) return; // stops at what is not a value: not specified
			break;
		}
		must.push_back(x);
		i = in.skip(x.all.to);
		if (in.at(i) && in.at(i) != L',') return; // not specified
	}
	std::stable_sort(must.begin(), must.end(), [](const El& a, const El& b) { return static_cast<float>(a.f) > static_cast<float>(b.f); });
	Q q(c, w, start, Char::enc(w, r));
	sp::http_weighted_collection<sp::http_weighted_value<V, A>> l;
	l.insert(q.x.data(), start, to);
	VH_CHECK(c, l.size() == must.size(), "weighted list", "%s to %zu: %zu values, must be %zu", q.where().c_str(), to, l.size(), must.size());
	auto k = l.begin();
	for (size_t i = 0; i < must.size() && k != l.end() && !c.failed; i++, ++k) {
		q.expect("weighted value", "element", k->interval, must[i].all);
		q.expect("weighted value asterisk", "asterisk", k->asterisk.interval, must[i].star);
		q.expect("weighted value itself", "value", k->value.interval, must[i].value);
		VH_CHECK(c, std::fabs(k->factor.value - must[i].f) <= 1e-6 * (1 + must[i].f), "factor", "%s: factor is %g, must be %g", q.where().c_str(), k->factor.value, must[i].f);
	}
	// The same values, one at a time, by a parser that keeps being used
	sp::http_weighted_value<V, A> v;
	for (size_t n = must.size() * 2; n && !c.failed; n--) {
		auto& m = r.pick(must);
		v.match(q.x.data(), q.t.pos[m.all.from], to, q.flags);
		q.expect("weighted value", "the value", v.interval, m.all);
		q.expect("weighted value asterisk", "the asterisk", v.asterisk.interval, m.star);
		q.expect("weighted value itself", "the value itself", v.value.interval, m.value);
		VH_CHECK(c, std::fabs(v.factor.value - m.f) <= 1e-6 * (1 + m.f), "factor", "%s: factor is %g, must be %g", q.where().c_str(), v.factor.value, m.f);
	}
	c.count("weighted values", must.size());
	if (!must.empty()) c.sig(hash_bytes(sub.data() + start, (to - start) * sizeof(wchar_t)));
	if (c.index < 2) c.sample(q.where());
}
VH_GROUP(list, 80000, 1500000, 10000)
{
	auto& r = c.rng;
	unsigned kind = static_cast<unsigned>(r.below(3));
	std::wstring w = r.coin() ? L"" : L"Accept: ";
	size_t start = w.size();
	auto space = [&] { return r.chance(1, 4) ? r.one({ L" ", L"\t", L"  " }) : L""; };
	for (size_t n = r.below(7); n; --n) {
		if (r.chance(1, 6)) w += kind == 0 ? r.one({ L"*", L"*/*" }) : L"*";
		else w += kind == 0 ? r.one({ L"text/html", L"a/*", L"image/x+y", L"text / plain" }) : kind == 1 ? r.one({ L"sl", L"en-US", L"x", L"sr-Cyrl-RS" }) : r.one({ L"gzip", L"br", L"utf-8", L"ISO-8859-2", L"\u00e8" });
		if (r.coin()) w += space() + std::wstring(L";") + space() + (r.coin() ? L"q" : L"Q") + space() + L"=" + space() + r.one({ L"0", L"1", L"0.5", L"0.8", L"0.75", L"1.000", L"0.001", L"0.", L"2" });
		w += space();
		if (n > 1 || r.chance(1, 6)) w += L"," + std::wstring(space());
		if (r.chance(1, 15)) w += L"," + std::wstring(space());
	}
	if (r.chance(1, 10) && w.size() > start) w[start + r.below(w.size() - start)] = r.one({ L',', L';', L'=', L'q', L'*', L'a', L'1' });
	size_t to = w.size();
	if (r.coin()) w += r.one({ L"\r\nX: y", L"abc", L",z", L"0" });
	switch (kind) {
	case 0: weighted<sp::http_media_range, sp::http_any_type>(c, w, start, to, [](const Http& in, size_t i) {
			size_t e = in.token(i);
			if (e == no) return no;
			e = in.skip(e);
			return in.at(e) == L'/' ? in.token(in.skip(e + 1)) : no;
		}); break;
	case 1: weighted<sp::http_language, sp::http_asterisk>(c, w, start, to, [](const Http& in, size_t i) {
			size_t end = no;
			for (;;) {
				size_t s = in.run(i, [&](size_t k) { auto ch = in.at(k) | 0x20; return L'a' <= ch && ch <= L'z'; });
				if (s == no) return end;
				end = s;
				if (in.at(s) != L'-') return end;
				i = s + 1;
			}
		}); break;
	default: weighted<sp::http_token, sp::http_asterisk>(c, w, start, to, [](const Http& in, size_t i) { return in.token(i); });
	}
}

VH_MAIN
