// P07: JSON strings, CSS tokens, MIME types and HTML tags against an independent reading of their grammars.
#include "probe.hpp"

static const size_t no = SIZE_MAX;
struct Tok : In
{
	Tok(const std::wstring& s) : In{ s } {}
	bool ws(size_t i) const { auto ch = at(i); return ch == L' ' || (9 <= ch && ch <= 13); }
	size_t skip(size_t i) const { while (ws(i)) i++; return i; }
	bool word(size_t i, const char* lower) const
	{
		for (; *lower; lower++, i++) {
			auto ch = at(i);
			if (ch >= L'A' && ch <= L'Z') ch |= 0x20;
			if (ch != static_cast<wchar_t>(*lower)) return false;
		}
		return true;
	}
	// Past the closing quote
	size_t quoted(size_t i) const
	{
		auto q = at(i);
		if (q != L'"' && q != L'\'') return no;
		for (i++; at(i); i++) {
			if (at(i) == q) return i + 1;
			if (at(i) == L'\\' && at(i + 1)) i++;
		}
		return no;
	}
};
template <class Fn> static void both(Case& c, Fn fn)
{
	if (c.index % 2) fn(Char()); else fn(Wide());
}
template <class F> static std::wstring fit(std::wstring w)
{
	if constexpr (std::is_same_v<F, Char>) for (auto& ch : w) if (ch > 0xff) ch = 0xc0 + (ch & 0x3f);
	return w;
}

// JSON strings
static void put(std::string& s, unsigned v)
{
	if (v < 0x80) s += static_cast<char>(v);
	else if (v < 0x800) { s += static_cast<char>(0xc0 | v >> 6); s += static_cast<char>(0x80 | (v & 0x3f)); }
	else { s += static_cast<char>(0xe0 | v >> 12); s += static_cast<char>(0x80 | (v >> 6 & 0x3f)); s += static_cast<char>(0x80 | (v & 0x3f)); }
}
static void put(std::wstring& s, unsigned v) { s += static_cast<wchar_t>(v); }

VH_GROUP(json, 150000, 3000000, 20000)
{
	both(c, [&](auto f) {
		using F = decltype(f);
		using T = typename F::T;
		auto& r = c.rng;
		size_t start;
		std::wstring good = L"\"";
		for (size_t n = r.below(8); n; --n)
			switch (r.below(6)) {
			case 0: good += r.one({ L"\\\"", L"\\\\", L"\\/", L"\\b", L"\\f", L"\\n", L"\\r", L"\\t" }); break;
			case 1: case 2: {
				unsigned v = static_cast<unsigned>(r.one<uint64_t>({ r.below(0x80), r.below(0x800), r.below(0xd800), 0xe000 + r.below(0x2000), 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 1 }));
				good += widen(r.coin() ? fmt("\\u%04x", v) : fmt("\\u%04X", v));
				break;
			}
			case 3: good += r.one({ L"abc", L"u0041", L"/", L"0", L"'", L"\u010d\u20ac", L" ", L"\u00e8" }); break;
			default: good += static_cast<wchar_t>(r.range(0x20, 0x7e)); if (good.back() == L'"' || good.back() == L'\\') good.pop_back();
			}
		good += L"\"";
		static const Words t = { L"\"", L"\\", L"\\\"", L"\\u", L"\\u0", L"\\u12", L"00e8", L"\\n", L"n", L"\\\\", L"a", L"F", L"\\x" };
		auto w = fit<F>(mess(r, good, t, start));
		Tok in(w);
		std::basic_string<T> value;
		Piece all;
		if (in.at(start) == L'"') {
			for (size_t e = start + 1; in.at(e);) {
				auto ch = in.at(e);
				if (ch == L'"') { all = Piece(start, e + 1); break; }
				if (ch != L'\\') { value += static_cast<T>(ch); e++; continue; }
				static const wchar_t from[] = L"\"\\/bfnrt", to[] = L"\"\\/\b\f\n\r\t";
				auto x = in.at(e + 1);
				if (x && wcschr(from, x)) { value += static_cast<T>(to[wcschr(from, x) - from]); e += 2; continue; }
				if (x != L'u') break;
				unsigned v = 0;
				size_t k = e + 2;
				for (; k < e + 6 && in.at(k) && wcschr(L"0123456789abcdefABCDEF", in.at(k)); k++)
					v = v * 16 + static_cast<unsigned>(in.dig(k) ? in.at(k) - L'0' : (in.at(k) | 0x20) - L'a' + 10);
				if (k < e + 6) break;
				if (0xd800 <= v && v < 0xe000) return; // not specified
				put(value, v);
				e = k;
			}
		}
		if (!all.on) value.clear();
		Probe<F> q(c, w, start, F::enc(w, r));
		q.flags &= ~sp::match_case_insensitive;
		auto p = kit::json<F>();
		if (r.coin()) { auto u = F::enc(L"\"abc\"", r); p->match(u.s.data(), 0, u.s.size()); }
		q.run(*p);
		q.whole("JSON string", all, p->interval);
		VH_CHECK(c, p->value == value, "JSON value", "%s: value is %s, must be %s", q.where().c_str(), show(p->value).c_str(), show(value).c_str());
	});
}

// CSS
static std::wstring css_text(Rng& r)
{
	static const Words t = { L"a", L"b c", L"\\\"", L"\\'", L"\\\\", L"\\5c ", L"\\a", L"*", L"/", L"**", L"'", L"\"", L"(", L"\\)", L";", L"\n", L"\u0161", L"http://x/y?z=1" };
	return soup(r, t, 6, 8);
}
static std::wstring css_quoted(Rng& r) { auto s = css_text(r), q = std::wstring(1, r.one({ L'"', L'\'' })); return q + s + q; }
static std::wstring css_space(Rng& r) { return r.chance(1, 3) ? r.one({ L" ", L"\t", L"\r\n", L"  " }) : L""; }
static const Words css_words = { L"/*", L"*/", L"/", L"*", L"<!--", L"-->", L"-", L"\"", L"'", L"\\", L"\\\\", L"\\\"", L"url(", L"URL( ", L")", L"@import", L"@Import ", L"a", L" ", L"\n", L"\u0161", L";" };

VH_GROUP(css, 150000, 3000000, 20000)
{
	both(c, [&](auto f) {
		using F = decltype(f);
		using T = typename F::T;
		auto& r = c.rng;
		size_t start;
		auto kind = r.below(5);
		std::wstring good;
		switch (kind) {
		case 0: good = L"/*" + css_text(r) + (r.chance(1, 5) ? L"*" : L"") + L"*/"; break;
		case 1: good = r.coin() ? L"<!--" : L"-->"; break;
		case 2: good = css_quoted(r); break;
		case 3: good = r.one({ L"url(", L"URL(", L"uRl(" }) + css_space(r) + (r.coin() ? css_quoted(r) : r.one({ L"a/b.css", L"a b", L"", L"\u0161.png", L"a\\)b", L"a\\\\", L"\\ a" })) + css_space(r) + L")"; break;
		default: good = r.one({ L"@import", L"@IMPORT", L"@imPort" }) + css_space(r) + css_quoted(r);
		}
		auto w = fit<F>(mess(r, good, css_words, start));
		Tok in(w);
		Probe<F> q(c, w, start, F::enc(w, r));
		Piece all, content;
		auto go = [&](auto& p, const char* key) {
			if (r.coin()) { auto u = F::enc(kind == 0 ? L"/*a*/" : kind == 2 ? L"'a'" : kind == 3 ? L"url(a)" : L"@import 'a'", r); p.match(u.s.data(), 0, u.s.size()); }
			q.run(p);
			q.whole(key, all, p.interval);
			q.expect("content", "content", p.content, content);
		};
		switch (kind) {
		case 0: {
			if (in.at(start) == L'/' && in.at(start + 1) == L'*') {
				size_t e = w.find(L"*/", start + 2);
				if (e != no) { content = Piece(start + 2, e); all = Piece(start, e + 2); }
			}
			sp::basic_css_comment<T> p;
			go(p, "CSS comment");
			break;
		}
		case 1:
			if (r.coin()) {
				sp::basic_css_cdo<T> p;
				q.run(p);
				q.whole("CDO", w.compare(start, 4, L"<!--") == 0 ? Piece(start, start + 4) : Piece(), p.interval);
			}
			else {
				sp::basic_css_cdc<T> p;
				q.run(p);
				q.whole("CDC", w.compare(start, 3, L"-->") == 0 ? Piece(start, start + 3) : Piece(), p.interval);
			}
			break;
		case 2: {
			size_t e = in.quoted(start);
			if (e != no) { content = Piece(start + 1, e - 1); all = Piece(start, e); }
			sp::basic_css_string<T> p;
			go(p, "CSS string");
			break;
		}
		case 3: {
			if (in.word(start, "url(")) {
				size_t k = in.skip(start + 4);
				if (in.is(k, L"\"'")) {
					size_t e = in.quoted(k);
					if (e != no) {
						content = Piece(k + 1, e - 1);
						e = in.skip(e);
						if (in.at(e) == L')') all = Piece(start, e + 1);
					}
				}
				else {
					content = Piece(k, k);
					for (; in.at(k) && in.at(k) != L')';) {
						if (in.at(k) == L'\\' && in.at(k + 1)) { k += 2; content.to = k; }
						else if (in.ws(k)) k++;
						else content.to = ++k;
					}
					if (in.at(k)) all = Piece(start, k + 1);
				}
			}
			if (!all.on) content = Piece();
			sp::basic_css_uri<T> p;
			go(p, "CSS URI");
			break;
		}
		default: {
			if (in.word(start, "@import")) {
				size_t k = in.skip(start + 7), e = in.quoted(k);
				if (e != no) { content = Piece(k + 1, e - 1); all = Piece(start, e); }
			}
			sp::basic_css_import<T> p;
			go(p, "CSS import");
		}
		}
	});
}

// MIME types
VH_GROUP(mime, 60000, 1000000, 8000)
{
	both(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		std::wstring w = r.chance(1, 3) ? soup(r, { L"a", L" ", L"/", L";" }, 3, 4) : L"";
		size_t start = w.size();
		static const Words names = { L"text", L"html", L"x-y+z", L"*", L"application", L"a" };
		Piece base, sub, charset, all;
		auto add = [&](const std::wstring& s) { Piece p(w.size(), w.size() + s.size()); w += s; return p; };
		base = add(r.pick(names));
		bool bad = r.chance(1, 8);
		if (!bad) {
			w += L"/";
			sub = add(r.pick(names));
			if (r.chance(2, 3)) {
				w += L";" + std::wstring(r.below(3), L' ');
				if (r.chance(4, 5)) {
					w += r.one({ L"charset=", L"CHARSET=", L"Charset=" });
					auto quote = r.one({ L"", L"\"", L"'" });
					w += quote;
					charset = add(*quote ? r.one({ L"utf-8", L"a b", L"x;y", L"" }) : r.one({ L"utf-8", L"ISO-8859-2" }));
					w += quote;
				}
			}
			all = Piece(start, w.size());
			w += r.one({ L"", L"", L" x", L"\n" });
			if (!charset.on && sub.to != all.to) all.to = no; // Where it ends with other parameters is not specified.
		}
		else {
			w += r.one({ L"", L" /b", L";charset=a", L"/", L"/ b", L"/;", L"\n" });
			base = Piece();
		}
		Probe<F> q(c, w, start, F::enc(w, r));
		sp::basic_mime_type<typename F::T> p;
		if (r.coin()) { auto u = F::enc(L"a/b;charset=c", r); p.match(u.s.data(), 0, u.s.size()); }
		q.run(p);
		if (all.on && all.to == no) { VH_CHECK(c, q.ok, "MIME type", "%s: no match", q.where().c_str()); }
		else q.whole("MIME type", all, p.interval);
		q.expect("MIME type base", "base type", p.base_type, base);
		q.expect("MIME subtype", "subtype", p.sub_type, sub);
		q.expect("MIME charset", "charset", p.charset, charset);
	});
}

// HTML
static std::wstring ident(Rng& r)
{
	static const Words t = { L"a", L"p", L"IMG", L"href", L"x:y", L"data-z", L"h1", L"\u0161", L"<", L"b/c", L"'", L"\"" };
	auto s = r.pick(t);
	if (r.coin()) s += r.pick(t);
	return s;
}
static std::wstring gap(Rng& r, bool need = false)
{
	if (!need && r.chance(2, 3)) return L"";
	return r.one({ L" ", L" ", L"\n", L"\t", L"\r\n  " });
}
struct Attr { Piece name, value; };

VH_GROUP(tag, 150000, 3000000, 20000)
{
	both(c, [&](auto f) {
		using F = decltype(f);
		using T = typename F::T;
		auto& r = c.rng;
		std::wstring w = r.chance(1, 3) ? soup(r, { L"a", L" ", L"<", L">", L"\"" }, 3, 4) : L"";
		const size_t start = w.size();
		auto add = [&](const std::wstring& s) { Piece p(w.size(), w.size() + s.size()); w += s; return p; };
		sp::html_sequence_t type;
		Piece name;
		std::vector<Attr> attrs;
		bool cut = true; // Must not match when cut off.
		w += L"<";
		switch (r.below(7)) {
		case 0: {
			w += L"!--";
			auto s = soup(r, { L"a", L"-", L"--", L">", L"->", L"<p>", L" ", L"!", L"\u0161" }, 6, 8);
			while (s.find(L"-->") != no) s.erase(s.find(L"-->"), 1);
			// -- before the end belongs to the end.
			while (!s.empty() && (s + L"-->").find(L"-->") != s.size()) s.pop_back();
			name = add(s);
			w += L"-->";
			type = sp::html_sequence_t::comment;
			break;
		}
		case 1: {
			w += L"?";
			auto s = soup(r, { L"xml", L" ", L"a=\"b\"", L"?", L"<", L"\u0161", L"--" }, 6, 0);
			while (!s.empty() && s.back() == L'?') s.pop_back();
			name = add(s);
			w += r.coin() ? L">" : L"?>";
			type = sp::html_sequence_t::instruction;
			break;
		}
		case 2: {
			w += L"!";
			name = Piece(w.size(), w.size());
			type = sp::html_sequence_t::declaration;
			bool sep = true;
			for (size_t n = r.below(5); n; --n) {
				if (!attrs.empty() && r.chance(1, 5)) { if (!sep) w += gap(r, true); w += L"--" + std::wstring(r.one({ L"", L" a ", L" > ", L"b-c", L"\"" })) + L"--" + gap(r); sep = true; cut = false; }
				else { if (!sep) w += gap(r, true); attrs.push_back({ add(r.one({ L"DOCTYPE", L"html", L"PUBLIC", L"\"-//W3C//DTD\"", L"[", L"x", L"%y;" })), {} }); sep = false; }
			}
			if (!sep) w += gap(r);
			if (r.chance(1, 4)) { if (!sep) w += L" "; w += L"!"; }
			w += L">";
			break;
		}
		default: {
			auto kind = r.below(3);
			type = kind == 0 ? sp::html_sequence_t::element_start : kind == 1 ? sp::html_sequence_t::element_end : sp::html_sequence_t::element;
			if (kind == 1) w += L"/";
			auto s = ident(r);
			while (kind != 1 && wcschr(L"!?/", s[0])) s.erase(0, 1);
			name = add(s.empty() ? L"b" : s);
			bool sep = false, empty = false;
			for (size_t n = r.below(5); n; --n) {
				if (!sep) w += gap(r, true);
				Attr a;
				a.name = add(ident(r));
				sep = false;
				if (r.chance(2, 3)) {
					w += gap(r) + L"=" + gap(r);
					switch (r.below(4)) {
					case 0:
						if (n == 1 && r.coin()) { empty = true; break; } // at the end of tag
						a.value = add(r.one({ L"b", L"x/y", L"1=2", L"a'b", L"a\"", L"\u0161", L"&amp;", L"#", L"<c" }));
						break;
					default: {
						auto quote = r.one({ L"\"", L"'" });
						auto v = soup(r, { L"a", L" b ", L">", L"/>", L"=", L"\"", L"'", L"<i>", L"\n", L"\u0161", L"&quot;" }, 4, 10);
						for (auto& ch : v) if (ch == *quote) ch = L'x';
						if (v.find(L'>') != no) cut = false;
						w += quote;
						a.value = add(v);
						w += quote;
						sep = true;
					}
					}
				}
				else sep = false;
				attrs.push_back(a);
			}
			w += gap(r);
			if (empty) attrs.back().value = Piece(w.size(), w.size());
			w += kind == 2 ? L"/>" : L">";
		}
		}
		Piece all(start, w.size());
		bool chopped = cut && r.chance(1, 4);
		if (chopped) {
			// Cut off
			w.resize(start + static_cast<size_t>(r.below(w.size() - start)));
			all = name = Piece();
			attrs.clear();
			type = sp::html_sequence_t::unknown;
		}
		else if (r.coin()) w += soup(r, { L">", L"<a>", L"text", L"-->", L" " }, 3, 5);
		w = fit<F>(w);
		Probe<F> q(c, w, start, F::enc(w, r));
		sp::basic_html_tag<T> p;
		if (r.coin()) { auto u = F::enc(L"<a b=\"c\" d>", r); p.match(u.s.data(), 0, u.s.size()); }
		q.run(p);
		q.whole(chopped ? "truncated tag" : "HTML tag", all, p.interval);
		VH_CHECK(c, p.type == type, "tag type", "%s: type is %d, must be %d", q.where().c_str(), static_cast<int>(p.type), static_cast<int>(type));
		q.expect("tag name", "name", p.name, name);
		VH_CHECK(c, p.attributes.size() == attrs.size(), "attributes", "%s: %zu attributes, must be %zu", q.where().c_str(), p.attributes.size(), attrs.size());
		for (size_t i = 0; i < attrs.size() && i < p.attributes.size(); i++) {
			q.expect("attribute name", "attribute name", p.attributes[i].name, attrs[i].name);
			q.expect("attribute value", "attribute value", p.attributes[i].value, attrs[i].value);
		}
		c.count("attributes", attrs.size());
	});
}

// Anything that may look like a tag: parts lie in the match, in order.
VH_GROUP(tag_soup, 80000, 1500000, 5000)
{
	both(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		static const Words t = { L"<", L"</", L"<!", L"<!--", L"<?", L"a", L" ", L"=", L"\"", L"'", L">", L"/>", L"-->", L"--", L"?>", L"!>", L"b=\"c\"", L"\n", L"/" };
		auto w = L"<" + soup(r, t, 14, 12);
		Probe<F> q(c, w, 0, F::enc(w, r));
		sp::basic_html_tag<typename F::T> p;
		if (q.run(p)) {
			c.count("matches");
			c.sig(hash_bytes(w.data(), p.interval.end * sizeof(wchar_t)));
			size_t last = 1;
			auto in = [&](const stdex::interval<size_t>& i, const char* what) {
				VH_CHECK(c, i && last <= i.start && i.end <= p.interval.end, "part of tag", "%s: %s %s is out of place in %s", q.where().c_str(), what, iv(i).c_str(), iv(p.interval).c_str());
				if (i) last = i.end;
			};
			in(p.name, "name");
			for (auto& a : p.attributes) { in(a.name, "attribute name"); if (a.value) in(a.value, "attribute value"); }
			VH_CHECK(c, w[p.interval.end - 1] == L'>', "end of tag", "%s: %s does not end with >", q.where().c_str(), iv(p.interval).c_str());
		}
		else c.count("non-matches");
	});
}

VH_GROUP(html_parts, 60000, 1000000, 8000)
{
	both(c, [&](auto f) {
		using F = decltype(f);
		using T = typename F::T;
		auto& r = c.rng;
		size_t start;
		auto kind = r.below(4);
		std::wstring good = kind == 0 ? L"<![" + gap(r) + r.one({ L"CDATA", L"IGNORE", L"%x;", L"a b", L"" }) + gap(r) + L"[" : kind == 1 ? L"]]>" : kind == 2 ? ident(r) : r.coin() ? L"\"" + css_text(r) + L"\"" : r.one({ L"abc", L"x/y", L"" });
		static const Words t = { L"<!", L"[", L"]", L"]]", L"]]>", L"CDATA", L" ", L"a", L"\"", L"'", L"/", L"/>", L">", L"=", L"\u0161", L"\n" };
		auto w = fit<F>(mess(r, good, t, start));
		Tok in(w);
		Probe<F> q(c, w, start, F::enc(w, r));
		Piece all, content;
		switch (kind) {
		case 0: {
			if (w.compare(start, 3, L"<![") == 0) {
				size_t k = in.skip(start + 3), e = w.find_first_of(L"[]>", k);
				if (e != no && w[e] == L'[') { // Otherwise, it is a conditional comment
					size_t last = e;
					while (last > k && in.ws(last - 1)) last--;
					content = Piece(k, last);
					all = Piece(start, e + 1);
				}
			}
			sp::basic_html_declaration_condition_start<T> p;
			if (r.coin()) { auto u = F::enc(L"<![a[", r); p.match(u.s.data(), 0, u.s.size()); }
			q.run(p);
			q.whole("condition start", all, p.interval);
			q.expect("condition", "condition", p.condition, content);
			break;
		}
		case 1: {
			sp::basic_html_declaration_condition_end<T> p;
			q.run(p);
			q.whole("condition end", w.compare(start, 3, L"]]>") == 0 ? Piece(start, start + 3) : Piece(), p.interval);
			break;
		}
		case 2: {
			size_t e = start;
			while (in.at(e) && !in.ws(e) && in.at(e) != L'>' && in.at(e) != L'=' && !(in.at(e) == L'/' && in.at(e + 1) == L'>')) e++;
			if (e == start) return; // not specified
			sp::basic_html_ident<T> p;
			q.run(p);
			q.whole("identifier", Piece(start, e), p.interval);
			break;
		}
		default: {
			if (in.is(start, L"\"'")) {
				size_t e = w.find(in.at(start), start + 1);
				if (e != no) { all = Piece(start, e + 1); content = Piece(start + 1, e); }
			}
			else {
				size_t e = start;
				while (in.at(e) && !in.ws(e) && in.at(e) != L'>' && !(in.at(e) == L'/' && in.at(e + 1) == L'>')) e++;
				all = content = Piece(start, e);
			}
			sp::basic_html_value<T> p;
			if (r.coin()) { auto u = F::enc(L"'a'", r); p.match(u.s.data(), 0, u.s.size()); }
			q.run(p);
			q.whole("attribute value token", all, p.interval);
			q.expect("attribute content", "content", p.content, content);
		}
		}
	});
}

VH_MAIN
