// P09: documents built from known parts, parsed, and linked back.
#include "vh.hpp"
#include <stdex/html.hpp>

using namespace vh;
namespace sh = stdex::html;
using W = std::wstring;
using Doc = sh::document<wchar_t>;
using Par = sh::parser<wchar_t>;
using TextTok = sh::text_token<wchar_t>;
using StartTok = sh::starting_token<wchar_t>;
using UrlTok = sh::url_token<wchar_t>;
using html_seq = stdex::parser::html_sequence_t;

static const size_t no = SIZE_MAX;

static std::string show(const W& w)
{
	std::string s;
	for (auto ch : w.substr(0, 400)) {
		if (ch >= 0x20 && ch < 0x7f) s += static_cast<char>(ch);
		else { char b[16]; snprintf(b, sizeof(b), "\\u{%x}", static_cast<unsigned>(ch)); s += b; }
	}
	if (w.size() > 400) s += "...";
	return s;
}
static std::string where(const W& w, size_t i) { size_t a = i > 30 ? i - 30 : 0; return show(w.substr(std::min(a, w.size()), 80)); }
static uint64_t hash_w(const W& w, uint64_t h = 7) { return hash_bytes(w.data(), w.size() * sizeof(wchar_t), h); }

// --- What a document is made of ---

enum Part { p_raw, p_text, p_attr, p_css };
struct Atom { Part part; W val; bool bare = false; };          // bare: attribute value without quotes
struct Attr { bool url; W val; };
struct Mark                                                     // A tag, comment, ...
{
	size_t start, end;
	html_seq type;
	W name;
	size_t ends = no;                                           // Mark this element ends at
	bool spans = false;                                         // May have an end
	bool hidden = false;                                        // Inside of what is not split to tokens
	std::vector<Attr> attrs;
};
struct Word { W word; uint32_t flags; unsigned group; };
struct Css { W val; };

struct Gen
{
	Rng& r;
	W src;
	std::vector<Atom> atoms;
	std::vector<Mark> marks;
	std::vector<Word> words;
	std::vector<W> css;
	std::vector<size_t> pending;                                // Elements left open: the next tag ends them
	std::vector<std::pair<uint32_t, unsigned>> flags{ { 0, 0 } }; // Kind of text, and which separate part of the text it is (0 - any)
	unsigned ngroups = 0;
	bool raw = false;                                           // Content is copied as it is
	size_t nword = 0, left;
	bool in_form = false, in_label = false, frames = false;
	size_t strays = 0, unended = 0;
	std::set<size_t> light; // Open elements without a text of their own
	Gen(Rng& _r, size_t _left) : r(_r), left(_left) {}

	void lit(const W& s)
	{
		src += s;
		if (atoms.empty() || atoms.back().part != p_raw) atoms.push_back({ p_raw, W() });
		atoms.back().val += s;
	}
	void dec(Part p, const W& s, const W& val, bool bare = false)
	{
		if (raw) { lit(s); return; }
		src += s;
		atoms.push_back({ p, val, bare });
	}

	// Characters of text or of an attribute value: [source, meaning]
	std::pair<W, W> chr(const wchar_t* avoid)
	{
		static const struct { const wchar_t* s; const wchar_t* v; } ent[] = {
			{ L"&amp;", L"&" }, { L"&lt;", L"<" }, { L"&gt;", L">" }, { L"&quot;", L"\"" }, { L"&#39;", L"'" }, { L"&#x27;", L"'" }, { L"&nbsp;", L"\u00a0" },
			{ L"&eacute;", L"\u00e9" }, { L"&euro;", L"\u20ac" }, { L"&#233;", L"\u00e9" }, { L"&#x1F600;", L"\U0001F600" }, { L"&#32;", L" " }, { L"&#60;", L"<" },
			{ L"&scaron;", L"\u0161" }, { L"&Abring;", L"A\u032f" }, { L"&zzqx;", L"&zzqx;" }, { L"&#0;", L"&#0;" }, { L"&#x110000;", L"&#x110000;" },
			{ L"&amp;lt;", L"&lt;" }, { L"&amp;#38;", L"&#38;" }, { L"&#10;", L"\n" }, { L"&semi;", L";" }, { L"&percnt;", L"%" }, { L"&#47;&#62;", L"/>" },
		};
		for (;;) {
			switch (r.below(6)) {
			case 0: case 1: { auto& e = ent[r.below(std::size(ent))]; return { e.s, e.v }; }
			case 2: { wchar_t ch = r.one({ L'"', L'\'', L'>', L';', L'%', L'=', L'/', L'[', L']', L'-', L'\\', L'#' }); if (wcschr(avoid, ch)) continue; if (ch == L'>') return { L"> ", L"> " }; return { W(1, ch), W(1, ch) }; }
			case 3: { if (wcschr(avoid, L' ')) continue; W s = r.one({ L" ", L"\n", L"\r\n", L"  ", L"\t", L"& " }); return { s, s }; }
			case 4: { W s(1, r.one({ L'\u00a0', L'\u0161', L'\u20ac', L'\U0001F600', L'\u0430', L'\u4e2d', L'\u0101' })); return { s, s }; }
			default: { W s; for (size_t n = 1 + r.below(4); n--;) s += static_cast<wchar_t>(L'a' + r.below(26)); return { s, s }; }
			}
		}
	}
	void text()
	{
		if (r.chance(1, 6)) { W s = r.one({ L" ", L"\n", L"\t\r\n" }); dec(p_text, s, s); return; }
		W s, v;
		for (size_t n = r.below(5); n--;) {
			if (r.chance(1, 40)) { s += r.one({ L"&#18;", L"&#x13;", L"&#18;1&#19;" }); v += raw ? L"" : s.back() == L';' && s[s.size() - 2] == L'9' ? L"?1?" : L"?"; continue; } // Reserved for tokens
			auto x = chr(L"<"); s += x.first; v += x.second;
		}
		if (r.coin() || s.empty()) {
			W w = L"qw" + std::to_wstring(nword++) + L"x";
			s += w; v += w;
			if (!raw) words.push_back({ w, flags.back().first, flags.back().second });
		}
		dec(p_text, s, v);
	}

	// Attributes
	struct Att { std::vector<Attr> known; };
	static bool url_attr(const W& el, const W& at)
	{
		static const std::set<std::pair<W, W>> u = { { L"a", L"href" }, { L"area", L"href" }, { L"base", L"href" }, { L"link", L"href" }, { L"img", L"src" }, { L"img", L"longdesc" }, { L"img", L"usemap" }, { L"img", L"lowsrc" }, { L"script", L"src" }, { L"iframe", L"src" },
			{ L"iframe", L"longdesc" }, { L"input", L"src" }, { L"input", L"lowsrc" }, { L"input", L"usemap" }, { L"form", L"action" }, { L"body", L"background" }, { L"table", L"background" }, { L"td", L"background" }, { L"th", L"background" }, { L"blockquote", L"cite" }, { L"q", L"cite" }, { L"ins", L"cite" }, { L"del", L"cite" },
			{ L"object", L"data" }, { L"object", L"codebase" }, { L"head", L"profile" }, { L"frame", L"src" }, { L"embed", L"src" }, { L"applet", L"code" }, { L"bgsound", L"src" }, { L"comment", L"data" }, { L"applet", L"src" }, { L"applet", L"codebase" }, { L"object", L"usemap" }, { L"frame", L"longdesc" },
			{ L"object", L"basehref" }, { L"object", L"classid" }, { L"object", L"code" }, { L"embed", L"pluginspage" } };
		return u.count({ el, at }) != 0;
	}
	static bool loc_attr(const W& el, const W& at)
	{
		static const std::set<std::pair<W, W>> u = { { L"img", L"alt" }, { L"area", L"alt" }, { L"input", L"alt" }, { L"applet", L"alt" }, { L"object", L"alt" }, { L"table", L"summary" }, { L"td", L"abbr" }, { L"th", L"abbr" } };
		return at == L"title" || u.count({ el, at }) != 0;
	}
	W cased(const W& s) { W o = s; switch (r.below(5)) { case 0: for (auto& ch : o) ch = towupper(ch); break; case 1: if (!o.empty()) o[0] = towupper(o[0]); break; default:; } return o; }

	size_t mark(html_seq type, const W& name, size_t start) { Mark m{ start, src.size(), type, name }; m.hidden = raw; marks.push_back(m); return marks.size() - 1; }
	void resolve(size_t at) { for (auto i : pending) marks[i].ends = at; pending.clear(); }

	size_t tag(const W& el, bool spans, bool closed = false) // <el ...> or <el .../>
	{
		static const wchar_t* names[] = { L"href", L"src", L"title", L"alt", L"class", L"style", L"cite", L"background", L"summary", L"abbr", L"action", L"data", L"id", L"onclick", L"longdesc", L"usemap", L"disabled", L"hrefx", L"titl", L"x:title", L"profile", L"lowsrc", L"codebase", L"code", L"classid", L"basehref", L"pluginspage" };
		size_t start = src.size();
		W shown = cased(el);
		lit(L"<" + shown);
		std::vector<Attr> known;
		for (size_t n = r.below(4); n--;) {
			W at = names[r.below(std::size(names))];
			if (r.coin()) for (size_t k = 0; k < 6 && !url_attr(el, at) && !loc_attr(el, at); k++) at = names[r.below(std::size(names))];
			lit(r.one({ L" ", L"\n", L"  " }) + cased(at));
			if (r.chance(1, 6)) continue;
			lit(r.one({ L"=", L" =", L"= ", L" = " }));
			W quote = r.one({ L"\"", L"'", L"" });
			if (quote.empty() && atoms.back().val.back() == L' ') quote = L"\"";
			const bool u = url_attr(el, at), l = !u && loc_attr(el, at);
			W s, v;
			const W avoid = quote.empty() ? W(L"\"'<> =/") : quote == L"\"" ? W(L"\"") : W(L"'");
			for (size_t k = quote.empty() ? 1 + r.below(4) : r.below(5); k--;) {
				auto x = chr(avoid.c_str());
				if (quote.empty() && !iswgraph(x.first[0]) && x.first[0] < 0x100) { if (s.empty()) k++; continue; }
				s += x.first; v += x.second;
			}
			bool blank = true;
			for (auto ch : s) if (!wcschr(L" \t\r\n", ch)) blank = false;
			lit(quote);
			if ((u || l) && !blank) {
				if (raw) lit(s);
				else {
					bool ent = quote.empty() && s.find(L'&') != W::npos;
					src += s;
					atoms.push_back({ p_attr, v, ent });
					known.push_back({ u, v });
				}
			}
			else lit(s);
			lit(quote);
			if (quote.empty()) lit(L" ");
		}
		lit(closed ? r.one({ L"/>", L" />" }) : r.one({ L">", L">", L" >" }));
		size_t m = mark(closed ? html_seq::element : html_seq::element_start, shown, start);
		resolve(m);
		marks[m].spans = spans && !closed;
		marks[m].attrs = known;
		return m;
	}
	void end(const W& el, size_t of)
	{
		size_t start = src.size();
		W shown = cased(el);
		lit(L"</" + shown + r.one({ L">", L">", L" >" }));
		size_t m = mark(html_seq::element_end, shown, start);
		resolve(m);
		marks[of].ends = m;
	}
	void other()
	{
		size_t start = src.size();
		auto filler = [&](const wchar_t* without) { W s; for (size_t n = r.below(6); n--;) { W x = r.one({ L"a ", L"<b>", L"\"", L"'", L"&amp;", L"-", L"</p>", L"]]>", L"\n", L"=", L"url(x)", L"%", L"?", L"\u0161" }); if (x.find_first_of(without) == W::npos) s += x; } return s; };
		switch (r.below(6)) {
		case 0: case 1: lit(L"<!--" + filler(L"-") + L"-->"); mark(html_seq::comment, W(), start); break;
		case 2: lit(L"<?" + filler(L">?") + r.one({ L">", L"?>" })); mark(html_seq::instruction, W(), start); break;
		case 3: lit(r.one({ L"<!DOCTYPE html>", L"<!doctype HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\">", L"<!x -- comment > -- y>", L"<!>", L"<![if !IE]>", L"<![endif]>", L"<!x!>" })); mark(html_seq::declaration, W(), start); break;
		case 4: lit(L"<![CDATA[" + filler(L"]") + L"]]>"); mark(html_seq::CDATA, W(), start); break;
		default: lit(r.one({ L"<![RCDATA[", L"<![ CDATA [" }) + filler(L"]") + L"]]>"); mark(src.compare(start, 5, L"<![RC") ? html_seq::CDATA : html_seq::PCDATA, W(), start); break;
		}
	}
	static W lower(W s) { for (auto& ch : s) if (ch < 0x80) ch = static_cast<wchar_t>(tolower(ch)); return s; }
	bool is_open(const W& el) const
	{
		for (auto& m : marks) if (m.spans && m.ends == no && lower(m.name) == lower(el)) return true;
		return false;
	}
	// End tag of what is not open: ends nothing
	void stray()
	{
		W el = r.one({ L"foo", L"o:p", L"\u0161", L"b1", L"spa", L"divv", L"bar", L"svg", L"fo", L"foob", L"ba", L"b", L"span", L"p", L"li", L"td", L"br", L"h1", L"div", L"script", L"body" });
		if (is_open(el)) return;
		size_t start = src.size();
		W shown = cased(el);
		if (is_open(shown)) return;
		lit(L"</" + shown + r.one({ L">", L">", L" >" }));
		mark(html_seq::element_end, shown, start);
		strays++;
	}
	static uint32_t flags_of(const W& el)
	{
		if ((el.size() == 2 && el[0] == L'h' && L'1' <= el[1] && el[1] <= L'6') || el == L"dt" || el == L"title") return sh::is_title;
		if (el == L"ul" || el == L"ol" || el == L"dir" || el == L"menu") return sh::is_bullet;
		return 0;
	}
	// Element with an end tag
	template <class F> void elem(const W& el, bool group, F content)
	{
		auto m = tag(el, true);
		if (group) flags.push_back({ flags_of(el), ++ngroups });
		content();
		if (group) flags.pop_back();
		end(el, m);
	}
	// Element whose end tag may be missing
	template <class F> void loose(const W& el, bool group, F content)
	{
		auto m = tag(el, true);
		if (group) flags.push_back({ flags_of(el), ++ngroups });
		content();
		if (group) flags.pop_back();
		if (r.coin()) end(el, m);
		else pending.push_back(m);
	}
	void inl(unsigned d, bool in_a = false)
	{
		for (size_t n = r.below(4); n--;) {
			if (left) left--; else { text(); return; }
			if (r.chance(1, 16)) stray();
			switch (r.below(d ? 13 : 5)) {
			case 0: case 1: case 2: text(); break;
			case 3: tag(r.one({ L"img", L"br", L"input", L"wbr", L"basefont", L"embed", L"rt" }), false); break;
			case 4: r.coin() ? other() : (void)tag(r.one({ L"img", L"br", L"span", L"foo", L"x:y", L"b" }), false, true); break;
			case 5: if (!in_a) { elem(L"a", false, [&] { inl(d - 1, true); }); break; } // falls through
			case 6: elem(r.one({ L"b", L"i", L"u", L"em", L"strong", L"tt", L"small", L"big", L"strike", L"abbr", L"xmp", L"var", L"dfn", L"s", L"blink" }), false, [&] { inl(d - 1, in_a); }); break;
			case 7: elem(r.one({ L"span", L"font", L"q", L"sub", L"sup", L"bdo", L"nobr", L"ruby" }), false, [&] { inl(d - 1, in_a); }); break;
			case 8: elem(r.one({ L"foo", L"o:p", L"\u0161", L"b1", L"spa", L"divv" }), false, [&] { inl(d - 1, in_a); }); break;
			case 9: verbatim(r.one({ L"cite", L"kbd", L"samp" }), [&] { inl(d - 1, in_a); }); break;
			case 10: special(r.one({ L"script", L"code", L"comment" })); break;
			case 11: replaced(d - 1, in_a); break;
			default: text();
			}
		}
		// Left to be ended by what ends the element around, or by what cannot be inside of it
		if (d && pending.empty() && r.chance(1, 10)) {
			W el = r.one({ L"b", L"i", L"em", L"span", L"font", L"q", L"sub", L"tt", L"u" });
			if (!is_open(el)) {
				auto m = tag(el, true);
				if (r.coin()) text();
				pending.push_back(m);
				light.insert(m);
				unended++;
			}
		}
	}
	void plain() { for (size_t n = r.below(4); n--;) switch (r.below(4)) { case 0: tag(r.one({ L"img", L"br" }), false); break; case 1: elem(L"b", false, [&] { text(); }); break; default: text(); } }
	// Controls, objects and what has blocks inside of a line
	void replaced(unsigned d, bool in_a)
	{
		bool was = in_label;
		switch (r.below(11)) {
		case 0: if (!in_label) { in_label = true; elem(L"label", false, [&] { inl(d, in_a); }); in_label = was; break; } // falls through
		case 1: elem(L"button", false, [&] { plain(); if (r.coin()) loose(L"p", true, [&] { plain(); }); }); break;
		case 2: elem(L"select", false, [&] {
			auto options = [&] { for (size_t n = r.below(4); n--;) loose(L"option", false, [&] { if (r.coin()) text(); }); };
			for (size_t n = r.below(3); n--;) if (r.coin()) elem(L"optgroup", false, options); else options();
			}); break;
		case 3: elem(L"textarea", false, [&] { text(); }); break;
		case 4: elem(L"map", false, [&] { for (size_t n = r.below(4); n--;) if (r.coin()) tag(L"area", false); else block(0); }); break;
		case 5: case 6: elem(r.one({ L"object", L"applet" }), false, [&] { for (size_t n = r.below(3); n--;) tag(L"param", false); if (d) flow(d - 1); }); break;
		case 7: elem(L"iframe", true, [&] { if (d) flow(d - 1); else text(); }); break;
		case 8: elem(r.one({ L"ins", L"del" }), false, [&] { if (d) flow(d - 1); else text(); }); break;
		case 9: elem(L"acronym", false, [&] { inl(d, in_a); }); break;
		default: elem(L"ruby", false, [&] { text(); tag(L"rt", false); text(); }); break;
		}
	}
	template <class F> void verbatim(const W& el, F content)
	{
		auto m = tag(el, true);
		bool was = raw; raw = true;
		content();
		raw = was;
		end(el, m);
		marks.back().hidden = raw;
	}
	void special(const W& el)
	{
		auto m = tag(el, true);
		for (size_t n = r.below(5); n--;) {
			if (r.chance(1, 8)) { bool was = raw; raw = true; size_t at = src.size(); lit(r.one({ L"<![CDATA[</b>]]>", L"<![CDATA[]]>" })); mark(html_seq::CDATA, W(), at); raw = was; }
			else lit(r.one({ L"if (a<b && c>d) ", L"'</b>'", L"<p>", L"<!-- ", L" -->", L"\"</scrip>\"", L"&amp;", L"x\n", L"</", L"< ", L"<br/>", L"\u0161", L"]]>" }));
		}
		lit(L"\n");
		end(el, m);
	}
	void style()
	{
		auto m = tag(L"style", true);
		auto url = [&](const W& quote) {
			W s, v;
			for (size_t n = 1 + r.below(6); n--;) {
				switch (r.below(8)) {
				case 6: s += r.one({ quote.empty() ? L"\\00003c/style>" : L"\\3C /style>", L"\\00003C![CDATA[" }); v += s.back() == L'[' ? L"<![CDATA[" : L"</style>"; break;
				case 0: if (quote.empty()) { s += L"\\)"; v += L")"; } else { s += L" ("; v += L" ("; } break;
				case 1: s += L"\\\\"; v += L"\\"; break;
				case 2: s += L"\\\""; v += L"\""; break;
				case 3: s += quote.empty() ? L"\\000026" : L"\\26 "; v += L"&"; break;
				case 4: s += quote.empty() ? L"\\00004e" : L"\\00004E "; v += L"N"; break;
				case 5: if (!quote.empty()) { s += quote == L"'" ? L"\"" : L"'"; v += quote == L"'" ? L"\"" : L"'"; } else { s += L"\\ "; v += L" "; } break;
				default: { W x = r.one({ L"img.png", L"http://a/b?c=d", L"#", L"\u0161", L"/", L"x" }); s += x; v += x; }
				}
			}
			dec(p_css, s, v);
			if (!raw) css.push_back(v);
		};
		for (size_t n = r.below(6); n--;) {
			switch (r.below(7)) {
			case 0: lit(r.one({ L"/* url('c') @import \"d\" */", L"/* ' */", L"/**/" })); break;
			case 1: lit(L"<!--"); break;
			case 2: lit(L"-->"); break;
			case 3: { W q = r.one({ L"\"", L"'" }); lit(r.one({ L"@import ", L"@IMPORT", L"@import\n" }) + q); url(q); lit(q + L";"); break; }
			case 4: case 5: {
				W q = r.one({ L"\"", L"'", L"" });
				lit(L"p { x: " + W(r.one({ L"url(", L"URL( ", L"Url(\n" })) + q);
				url(q);
				lit(q + r.one({ L")", L" )", L")" }) + L"; }");
				break;
			}
			default: lit(r.one({ L"b { color: red }\n", L" a > b ", L"u r l", L"\\", L"'", L"&amp;" , L"\u0161"})); lit(L"\n");
			}
		}
		lit(L"\n");
		end(L"style", m);
	}
	// What may be inside of an element that has not ended
	template <class F> void within(F content)
	{
		auto was = std::move(pending);
		pending.clear();
		bool group = false;
		for (auto i : was) if (!light.count(i)) group = true;
		if (group) flags.push_back({ 0, 0 });
		content();
		if (group) flags.pop_back();
		pending.insert(pending.begin(), was.begin(), was.end());
	}
	void block(unsigned d)
	{
		if (left) left--;
		if (r.chance(1, 16)) stray();
		switch (r.below(d ? 13 : 3)) {
		case 0: loose(L"p", true, [&] { inl(d ? d - 1 : 0); }); break;
		case 1: { W h = L"h" + std::to_wstring(1 + r.below(6)); elem(h, true, [&] { inl(d ? d - 1 : 0); }); break; }
		case 2: tag(r.one({ L"hr", L"isindex" }), false); break;
		case 3: {
			W el = r.one({ L"div", L"center", L"blockquote", L"form", L"noscript", L"marquee", L"noembed", L"noframes" });
			if ((el == L"form" && in_form) || (el == L"noframes" && frames)) el = L"div";
			bool was = in_form, was_frames = frames;
			if (el == L"form") in_form = true;
			if (el == L"noframes") frames = true;
			elem(el, true, [&] { flow(d - 1); });
			in_form = was; frames = was_frames;
			break;
		}
		case 4: elem(r.one({ L"ul", L"ol", L"dir", L"menu" }), true, [&] { for (size_t n = r.below(4); n--;) loose(L"li", false, [&] { flow(d - 1); }); }); break;
		case 5: elem(L"dl", true, [&] { for (size_t n = r.below(4); n--;) if (r.coin()) loose(L"dt", true, [&] { inl(d - 1); }); else loose(L"dd", true, [&] { flow(d - 1); }); }); break;
		case 6: elem(L"table", true, [&] {
			auto rows = [&] { for (size_t n = r.below(3); n--;) loose(L"tr", true, [&] { for (size_t k = r.below(3); k--;) loose(r.one({ L"td", L"th" }), true, [&] { flow(d - 1); }); }); };
			if (r.chance(1, 3)) elem(L"caption", false, [&] { inl(d - 1); });
			if (r.chance(1, 4)) tag(L"col", false);
			else if (r.chance(1, 4)) for (size_t n = 1 + r.below(2); n--;) loose(L"colgroup", true, [&] { for (size_t k = r.below(3); k--;) tag(L"col", false); });
			if (r.coin()) rows();
			else for (size_t n = r.below(3); n--;) loose(r.one({ L"tbody", L"thead", L"tfoot" }), false, rows);
			}); break;
		case 7: elem(r.one({ L"pre", L"listing" }), true, [&] { for (size_t n = r.below(3); n--;) text(); }); break;
		case 8: verbatim(L"address", [&] { inl(d - 1); }); break;
		case 9: within([&] { special(r.one({ L"script", L"comment" })); }); break;
		case 10: within([&] { elem(r.one({ L"bar", L"svg", L"ins", L"del" }), false, [&] { flow(d - 1); }); }); break;
		case 11: other(); break;
		default: elem(L"fieldset", true, [&] { if (r.coin()) elem(L"legend", true, [&] { inl(d - 1); }); flow(d - 1); });
		}
	}
	void flow(unsigned d)
	{
		if (!left) { text(); return; }
		if (r.coin()) inl(d);
		for (size_t n = r.below(4); n--;) {
			block(d);
			// What follows would be inside of an element that has not ended.
			if (pending.empty() && r.coin()) inl(d);
		}
	}
	void document()
	{
		unsigned d = static_cast<unsigned>(r.below(5));
		if (r.coin()) {
			if (r.chance(1, 10)) tag(L"bgsound", false);
			flow(d);
			if (r.chance(1, 20)) loose(L"plaintext", false, [&] { flow(d); });
			finish();
			return;
		}
		if (r.coin()) other();
		auto m_html = tag(L"html", true);
		flags.push_back({ 0, 0 });
		if (r.coin()) loose(L"head", true, [&] {
			for (size_t n = r.below(5); n--;) switch (r.below(7)) {
			case 5: r.coin() ? (void)tag(L"isindex", false) : elem(L"object", false, [&] { text(); }); break;
			case 0: elem(L"title", true, [&] { text(); if (r.coin()) text(); }); break;
			case 1: tag(r.one({ L"meta", L"link", L"base", L"nextid" }), false); break;
			case 2: style(); break;
			case 3: special(L"script"); break;
			case 4: other(); break;
			default: lit(L"<meta http-equiv=\"Content-Type\" content=\"text/html; charset=" + W(r.one({ L"utf-8", L"windows-1250", L"x", L"\u0161" })) + L"\">"); size_t n0 = src.rfind(L"<meta"); size_t k = mark(html_seq::element_start, L"meta", n0); resolve(k);
			}
		});
		if (pending.empty() && r.coin()) lit_blank();
		if (r.chance(1, 8)) {
			frames = true;
			frameset(d);
			flags.pop_back();
			if (r.coin()) end(L"html", m_html); else pending.push_back(m_html);
			finish();
			return;
		}
		auto m_body = tag(L"body", true);
		flags.push_back({ 0, 0 });
		flow(d);
		flags.pop_back();
		if (r.coin()) end(L"body", m_body); else pending.push_back(m_body);
		flags.pop_back();
		if (r.coin()) end(L"html", m_html); else pending.push_back(m_html);
		finish();
	}
	void frameset(unsigned d)
	{
		elem(L"frameset", true, [&] {
			for (size_t n = r.below(4); n--;) switch (r.below(d ? 4 : 2)) {
			case 0: case 1: tag(L"frame", false); break;
			case 2: frameset(d - 1); break;
			default: elem(L"noframes", true, [&] { if (r.coin()) flow(d - 1); else loose(L"body", true, [&] { flow(d - 1); }); });
			}
			if (r.coin()) lit_blank();
			});
	}
	void lit_blank() { W s = r.one({ L"\n", L" " }); dec(p_text, s, s); }
	void finish() { pending.clear(); }
};

// --- What the parser made of it ---

struct Seen
{
	const sh::token* tok;
	const sh::token* in;
};

struct Walk
{
	Case& c;
	const W& src;
	std::vector<const sh::token*> tags;                         // Tokens of tags, comments etc., as they follow
	std::vector<const UrlTok*> css;
	std::map<W, std::pair<const TextTok*, uint32_t>> words;
	size_t texts = 0, depth = 0;
	W dump;                                                     // The same for the same document
	bool maps = true;
	Walk(Case& _c, const W& _src) : c(_c), src(_src) {}

	void num(uint64_t n) { dump += L'#'; dump += std::to_wstring(n); }
	template <class F, class G> void pieces(const TextTok& t, F chr, G tok)
	{
		for (size_t i = 0; i < t.text.size();) {
			size_t j = i;
			const sh::token* k = t.text_type & sh::has_tokens ? sh::token::parse_tag(t.text.data(), i) : nullptr;
			if (k) tok(k, j);
			else chr(i++);
		}
	}
	void seq(const sh::token& t) { if (t.sequence) { num(t.sequence->interval.start); num(t.sequence->interval.end); num(static_cast<uint64_t>(static_cast<int>(t.sequence->type) + 10)); } }
	void tree(const TextTok& t, size_t level = 0)
	{
		depth = std::max(depth, level);
		dump += L"("; num(static_cast<uint64_t>(t.type)); num(t.text_type);
		seq(t);
		for (auto& m : t.mapping) VH_CHECK(c, m.from <= src.size() && m.to <= t.text.size(), "map-range", "mapping %zu to %zu in a text of %zu", m.from, m.to, t.text.size());
		for (size_t i = 1; i < t.mapping.size(); i++) VH_CHECK(c, t.mapping[i - 1].from <= t.mapping[i].from && t.mapping[i - 1].to <= t.mapping[i].to, "map-order", "mapping %zu to %zu follows %zu to %zu in \"%s\"", t.mapping[i].from, t.mapping[i].to, t.mapping[i - 1].from, t.mapping[i - 1].to, show(t.text).c_str());
		W w;
		auto flush = [&] {
			for (size_t a = w.find(L"qw"); a != W::npos; a = w.find(L"qw", a + 1)) {
				size_t b = a + 2;
				while (b < w.size() && L'0' <= w[b] && w[b] <= L'9') b++;
				if (b < w.size() && w[b] == L'x') words[w.substr(a, b + 1 - a)] = { &t, t.text_type };
			}
			w.clear();
		};
		const StartTok* before = nullptr;
		pieces(t, [&](size_t i) {
			w += t.text[i];
			dump += t.text[i];
			if (maps && !t.mapping.empty() && !c.failed) {
				size_t at = stdex::dst2src(t.mapping, i);
				texts++;
				VH_CHECK(c, at < src.size() && (src[at] == t.text[i] || src[at] == L'&' || (at && src[at - 1] == L'&') || t.text[i] == L'?'), "map", "character %zu of \"%s\" is said to be from %zu, where \"%s\" is", i, show(t.text).c_str(), at, at < src.size() ? show(src.substr(at, 20)).c_str() : "the end");
			}
		}, [&](const sh::token* k, size_t at) {
			flush();
			if (maps && !t.mapping.empty() && k->sequence && !c.failed) {
				// Where an element is, its content is said to be too.
				size_t from = stdex::dst2src(t.mapping, at);
				VH_CHECK(c, from <= src.size() && (from == k->sequence->interval.start || src[from] == L'<'), "map-tag", "tag of what is at %zu is said to be from %zu", k->sequence->interval.start, from);
			}
			// What follows is copied as it is, unless there is nothing to copy.
			bool content = before && k->sequence != before->end_sequence;
			before = dynamic_cast<const StartTok*>(k);
			if (before && !verbatim(before->name)) before = nullptr;
			node(*k, content, level);
		});
		flush();
		dump += L")";
	}
	void node(const sh::token& k, bool content, size_t level)
	{
		switch (k.type) {
		case sh::token_t::url: {
			auto& u = dynamic_cast<const UrlTok&>(k);
			dump += L"["; num(static_cast<uint64_t>(u.encoding)); seq(u); dump += u.url; dump += L"]";
			if (u.encoding == sh::token_url_t::css) css.push_back(&u);
			break;
		}
		case sh::token_t::starting: {
			auto& s = dynamic_cast<const StartTok&>(k);
			dump += L"{" + s.name;
			if (s.end_sequence) num(s.end_sequence->interval.start);
			tags.push_back(&k);
			tree(s, level + 1);
			dump += L"}";
			break;
		}
		default: {
			auto& s = dynamic_cast<const TextTok&>(k);
			if (!content && markup(s)) tags.push_back(&k);
			tree(s, level + 1);
		}
		}
	}
	static bool verbatim(const W& name)
	{
		static const std::set<W> v = { L"address", L"code", L"comment", L"cite", L"kbd", L"samp", L"script", L"style" };
		W low;
		for (auto ch : name) low += ch < 0x80 ? static_cast<wchar_t>(tolower(ch)) : ch;
		return v.count(low) != 0;
	}
	// Does the token stand for a tag (rather than for the content of an element or of an attribute)?
	bool markup(const TextTok& t) const
	{
		if (t.type == sh::token_t::ending) return true;
		if (!t.sequence || !t.mapping.empty() || (t.text_type & sh::has_text)) return false;
		auto& iv = t.sequence->interval;
		if (t.text_type & sh::has_tokens) return (t.sequence->type == html_seq::element || t.sequence->type == html_seq::element_start) && !t.text.empty() && t.text[0] == L'<' && t.text.back() == L'>' && t.text.compare(0, 2, src, iv.start, 2) == 0;
		return t.text == src.substr(iv.start, iv.size()) && t.sequence->type != html_seq::text;
	}
};

// Reads one of what the source may mean by a character.
static bool take(const W& out, size_t& i, const W& val, size_t& v)
{
	static const struct { const wchar_t* s; wchar_t ch; } ent[] = { { L"&amp;", L'&' }, { L"&lt;", L'<' }, { L"&gt;", L'>' }, { L"&quot;", L'"' }, { L"&apos;", L'\'' }, { L"&#x27;", L'\'' }, { L"&#39;", L'\'' }, { L"&nbsp;", 0xa0 }, { L"&semi;", L';' } };
	if (out[i] == L'&') {
		for (auto& e : ent) if (out.compare(i, wcslen(e.s), e.s) == 0) {
			if (val[v] != e.ch) return false;
			i += wcslen(e.s); v++;
			return true;
		}
		return false;
	}
	if (out[i] != val[v]) return false;
	i++; v++;
	return true;
}
static bool take_css(const W& out, size_t& i, const W& val, size_t& v)
{
	if (out[i] == L'\\' && i + 1 < out.size()) {
		if (iswxdigit(static_cast<wint_t>(out[i + 1]))) {
			uint32_t ch = 0; size_t k = i + 1;
			for (; k < out.size() && k < i + 7 && out[k] < 0x80 && isxdigit(out[k]); k++) ch = ch * 16 + (out[k] <= L'9' ? out[k] - L'0' : (out[k] | 0x20) - L'a' + 10);
			if (k < out.size() && out[k] == L' ') k++;
			if (static_cast<uint32_t>(val[v]) != ch) return false;
			i = k; v++; return true;
		}
		if (val[v] != out[i + 1]) return false;
		i += 2; v++; return true;
	}
	if (out[i] != val[v]) return false;
	i++; v++;
	return true;
}

static void same_content(Case& c, const Gen& g, const W& out)
{
	size_t i = 0;
	for (auto& a : g.atoms) {
		if (a.part == p_raw) {
			if (out.compare(i, a.val.size(), a.val) != 0) {
				size_t k = 0; while (k < a.val.size() && i + k < out.size() && out[i + k] == a.val[k]) k++;
				c.fail("link-markup", "source %s: linked has \"%s\" where \"%s\" was", show(g.src).c_str(), where(out, i + k).c_str(), where(a.val, k).c_str());
				return;
			}
			i += a.val.size();
		}
		else {
			bool q = a.bare && i < out.size() && out[i] == L'"';
			if (q) i++;
			size_t from = i, v = 0;
			while (v < a.val.size() && i < out.size()) {
				if (a.part == p_attr && !a.bare && false) break;
				if (!(a.part == p_css ? take_css(out, i, a.val, v) : take(out, i, a.val, v))) break;
			}
			if (a.part == p_attr && a.bare && !q) for (size_t k = from; k < i; k++) if (wcschr(L" \t\r\n\"'<>", out[k])) { c.fail("link-unquoted", "source %s: linked has the value \"%s\" without quotes", show(g.src).c_str(), show(out.substr(from, i - from)).c_str()); return; }
			VH_CHECK(c, v == a.val.size() && (!q || (i < out.size() && out[i] == L'"')), a.part == p_text ? "link-text" : a.part == p_css ? "link-css" : "link-attribute", "source %s: linked has \"%s\" where \"%s\" was meant", show(g.src).c_str(), where(out, i).c_str(), show(a.val).c_str());
			if (c.failed) return;
			if (q) i++;
		}
	}
	VH_CHECK(c, i == out.size(), "link-more", "source %s: linked has \"%s\" more", show(g.src).c_str(), where(out, i).c_str());
}

static void feed(Doc& d, const W& src, const std::vector<size_t>& cuts)
{
	size_t at = 0;
	for (auto k : cuts) { Exact<wchar_t> x(src.substr(at, k - at)); d.append(x.data(), k - at); at = k; }
	Exact<wchar_t> x(src.substr(at));
	d.append(x.data(), src.size() - at);
	d.finalize();
}

// A document that held something else, damaged or not
static W junk(Rng& r)
{
	Gen g(r, 1 + r.size(20));
	g.document();
	W s = r.chance(1, 3) ? g.src : g.src.substr(0, static_cast<size_t>(r.below(g.src.size() + 1)));
	if (r.coin()) s += r.one({ L"<![IGNORE[", L"<![CDATA[", L"<![INCLUDE[<![RCDATA[", L"<!ENTITY % draft 'IGNORE'><!ENTITY % d INCLUDE><!ENTITY % dr CDATA>", L"<table><tr>", L"<script>", L"<style>/*", L"<!ENTITY % nothere INCLUDE>", L"<![%undefined;[", L"<meta http-equiv=content-type content='text/html; charset=utf-16'>" });
	return s;
}
static void use(Rng& r, Doc& d)
{
	if (r.coin()) return;
	W s = junk(r);
	try { d.append(s.data(), s.size()); if (r.coin()) d.finalize(); } catch (const std::runtime_error&) {}
	if (r.coin()) { try { Par p(d, nullptr, 0, true); p.parse(); } catch (const std::exception&) {} }
	d.clear();
}

// What a token tree says, positions aside
static void shape(const sh::token& k, W& out)
{
	auto blank = [](const W& s) { for (auto ch : s) if (!iswspace(static_cast<wint_t>(ch)) && ch != 0xa0) return false; return true; };
	if (k.type == sh::token_t::url) {
		auto& u = dynamic_cast<const UrlTok&>(k);
		out += u.encoding != sh::token_url_t::css && blank(u.url) ? u.url : L"[" + u.url + L"]";
		return;
	}
	auto& t = dynamic_cast<const TextTok&>(k);
	// Blank values of attributes may be left in the tag. Quotes may be added.
	if ((t.text_type & sh::is_attribute) && blank(t.text)) { out += t.text; return; }
	const bool tag = t.type == sh::token_t::starting || (t.type == sh::token_t::complete && !(t.text_type & sh::has_text) && t.text[0] == L'<');
	out += L"(" + std::to_wstring(static_cast<int>(t.type)) + L"," + std::to_wstring(t.text_type & (sh::is_title | sh::is_bullet | sh::is_attribute)) + L":";
	if (auto s = dynamic_cast<const StartTok*>(&k)) out += s->name + L":";
	for (size_t i = 0; i < t.text.size();) {
		const sh::token* n = t.text_type & sh::has_tokens ? sh::token::parse_tag(t.text.data(), i) : nullptr;
		if (n) shape(*n, out);
		else if (tag && t.text[i] == L'"') i++;
		else out += t.text[i++];
	}
	out += L")";
}

VH_GROUP(documents, 60000, 1500000, 40000)
{
	auto& r = c.rng;
	Gen g(r, 1 + r.size(120));
	g.document();
	Doc doc;
	use(r, doc);
	{
		Exact<wchar_t> x(g.src);
		doc.assign(x.data(), g.src.size());
	}
	VH_CHECK(c, doc.source() == g.src, "source", "source() of %s is %s", show(g.src).c_str(), show(doc.source()).c_str());
	if (g.frames) {
		// Are refused, unless asked for
		bool threw = false;
		try { Par p0(doc); p0.parse(); } catch (const std::invalid_argument&) { threw = true; }
		VH_CHECK(c, threw, "frames", "source %s: frames are not refused", show(g.src).c_str());
		c.count("documents of frames");
	}
	Par p(doc, nullptr, 0, g.frames);
	auto root = p.parse();
	W out;
	Par::link(out, root);
	c.sig(hash_w(g.src));
	if (c.index < 3) c.sample(show(g.src));
	same_content(c, g, out);
	if (c.failed) return;
	Walk w(c, g.src);
	w.tree(*root);
	if (c.failed) return;
	// Every tag, and each once
	std::vector<const Mark*> want;
	for (auto& m : g.marks) if (!m.hidden) want.push_back(&m);
	VH_CHECK(c, w.tags.size() == want.size(), "tags", "source %s: %zu tokens of tags, must be %zu", show(g.src).c_str(), w.tags.size(), want.size());
	for (size_t i = 0; i < want.size() && !c.failed; i++) {
		auto& m = *want[i];
		auto s = w.tags[i]->sequence;
		VH_CHECK(c, s && s->interval.start == m.start && s->interval.end == m.end && s->type == m.type, "tag", "source %s: tag %zu is at [%zu, %zu), type %d, must be at [%zu, %zu), type %d", show(g.src).c_str(), i, s->interval.start, s->interval.end, static_cast<int>(s->type), m.start, m.end, static_cast<int>(m.type));
		if (c.failed) return;
		// Inside of the innermost element still open
		size_t self = static_cast<size_t>(&m - g.marks.data()), inside = no;
		for (size_t k = self; k--;)
			if (g.marks[k].spans && (g.marks[k].ends == no || g.marks[k].ends > self)) { inside = g.marks[k].start; break; }
		VH_CHECK(c, (s->parent ? s->parent->interval.start : no) == inside, "parent", "source %s: tag at %zu is inside of what is at %zd, must be of what is at %zd", show(g.src).c_str(), m.start, static_cast<ssize_t>(s->parent ? s->parent->interval.start : no), static_cast<ssize_t>(inside));
		if (m.spans) {
			auto st = dynamic_cast<const StartTok*>(w.tags[i]);
			VH_CHECK(c, st && st->name == m.name, "tag-name", "source %s: \"%s\" is not a starting token with that name", show(g.src).c_str(), show(m.name).c_str());
			if (c.failed) return;
			size_t e = st->end_sequence ? st->end_sequence->interval.start : no, x = m.ends == no ? no : g.marks[m.ends].start;
			VH_CHECK(c, e == x, "tag-end", "<%s> at %zu ends at %zd, must end at %zd: %s", show(m.name).c_str(), m.start, static_cast<ssize_t>(e), static_cast<ssize_t>(x), show(g.src.substr(m.start, std::min<size_t>(std::max(e == no ? 0 : e, x == no ? 0 : x), m.start + 380) + 20 - m.start)).c_str());
			c.count(m.ends == no ? "elements never ended" : g.marks[m.ends].type == html_seq::element_end ? "elements ended by an end tag" : "elements ended by another element");
		}
		else if (m.type == html_seq::element_start || m.type == html_seq::element)
			VH_CHECK(c, w.tags[i]->type == sh::token_t::complete, "tag-empty", "source %s: <%s> at %zu is not a complete token", show(g.src).c_str(), show(m.name).c_str(), m.start);
		// Localizable and URL attributes are tokens of their own
		std::vector<Attr> got;
		if (auto t = dynamic_cast<const TextTok*>(w.tags[i]); t && (m.type == html_seq::element_start || m.type == html_seq::element))
			w.pieces(*t, [](size_t) {}, [&](const sh::token* k, size_t) {
				if (auto u = dynamic_cast<const UrlTok*>(k)) got.push_back({ true, u->url });
				else if (auto x = dynamic_cast<const TextTok*>(k)) got.push_back({ false, x->text });
			});
		bool ok = got.size() == m.attrs.size();
		for (size_t k = 0; ok && k < got.size(); k++) ok = got[k].url == m.attrs[k].url && got[k].val == m.attrs[k].val;
		VH_CHECK(c, ok, "attributes", "%s at %zu has %zu URLs and texts (%s), must have %zu (%s)", show(g.src.substr(m.start, m.end - m.start)).c_str(), m.start, got.size(), got.empty() ? "" : show(got[0].val).c_str(), m.attrs.size(), m.attrs.empty() ? "" : show(m.attrs[0].val).c_str());
		c.count("attributes", got.size());
	}
	if (c.failed) return;
	// What was linked is the same document.
	if (r.coin()) {
		Doc d3;
		Exact<wchar_t> x(out);
		d3.assign(x.data(), out.size());
		Par p3(d3, nullptr, 0, g.frames);
		W want, got;
		shape(*root, want);
		shape(*p3.parse(), got);
		size_t k = 0;
		while (k < want.size() && k < got.size() && want[k] == got[k]) k++;
		VH_CHECK(c, got == want, "again", "source %s: says \"%s\", linked says \"%s\": %s", show(g.src).c_str(), where(want, k).c_str(), where(got, k).c_str(), show(out).c_str());
	}
	VH_CHECK(c, w.css.size() == g.css.size(), "css", "source %s: %zu URLs in CSS, must be %zu", show(g.src).c_str(), w.css.size(), g.css.size());
	for (size_t i = 0; i < g.css.size() && !c.failed; i++) VH_CHECK(c, w.css[i]->url == g.css[i], "css-url", "source %s: URL %s, must be %s", show(g.src).c_str(), show(w.css[i]->url).c_str(), show(g.css[i]).c_str());
	std::map<const TextTok*, std::pair<unsigned, W>> parts;
	for (auto& x : g.words) {
		auto f = w.words.find(x.word);
		VH_CHECK(c, f != w.words.end(), "word", "source %s: %s is in no text", show(g.src).c_str(), show(x.word).c_str());
		if (c.failed) return;
		VH_CHECK(c, (f->second.second & sh::has_text) && (f->second.second & (sh::is_title | sh::is_bullet)) == x.flags, "word-kind", "source %s: %s is in text of kind %u, must be %u", show(g.src).c_str(), show(x.word).c_str(), f->second.second, x.flags | sh::has_text);
		if (!x.group) continue;
		auto part = parts.emplace(f->second.first, std::make_pair(x.group, x.word)).first;
		VH_CHECK(c, part->second.first == x.group, "parts", "source %s: %s and %s are in one text, but in different blocks", show(g.src).c_str(), show(part->second.second).c_str(), show(x.word).c_str());
	}
	c.count("tags", want.size());
	c.count("end tags of nothing", g.strays);
	c.count("inline elements without end tags", g.unended);
	c.count("words", g.words.size());
	c.count("CSS URLs", g.css.size());
	// In pieces
	if (!g.src.empty()) {
		std::vector<size_t> may, cuts;
		for (size_t i = 0, k = 0; i <= g.src.size(); i++) {
			// Not inside of markup
			while (k < g.marks.size() && g.marks[k].end <= i) k++;
			if (k >= g.marks.size() || i <= g.marks[k].start) may.push_back(i);
		}
		if (r.chance(1, 10)) cuts = may;
		else {
			for (size_t n = 1 + r.below(6); n--;) cuts.push_back(r.pick(may));
			std::sort(cuts.begin(), cuts.end());
		}
		Doc d2;
		if (r.coin()) { d2.append(L"<p>left", 7); d2.clear(); }
		feed(d2, g.src, cuts);
		Par p2(d2, nullptr, 0, g.frames);
		auto root2 = p2.parse();
		Walk w2(c, g.src);
		w2.tree(*root2);
		VH_CHECK(c, w2.dump == w.dump, "pieces", "source %s: differs when parsed in %zu pieces", show(g.src).c_str(), cuts.size() + 1);
		c.count("documents parsed in pieces");
	}
}

struct Stop : stdex::progress<size_t>
{
	size_t after, calls = 0, sets = 0, lo = 0, hi = 0, last = 0, most = 0;
	bool ok = true;
	void set_range(size_t a, size_t b) override { lo = a; hi = b; }
	void set(size_t v) override { if (v < lo || v > hi || v < last) ok = false; last = v; sets++; most = std::max(most, ++unasked); }
	bool cancel() override { unasked = 0; return calls++ >= after; }
	size_t unasked = 0; // Steps since asked whether to go on
};

VH_GROUP(progress, 1500, 20000, 500)
{
	auto& r = c.rng;
	Gen g(r, 1 + r.size(60));
	g.document();
	Doc doc;
	doc.assign(g.src.data(), g.src.size());
	Stop s;
	s.after = r.coin() ? no : static_cast<size_t>(r.below(20));
	Par p(doc, nullptr, 0, g.frames, &s);
	bool stopped = false;
	TextTok* root = nullptr;
	try { root = p.parse(); } catch (const stdex::user_cancelled&) { stopped = true; }
	VH_CHECK(c, s.ok && s.hi == g.src.size(), "progress", "source %s: progress goes back or out of [%zu, %zu]", show(g.src).c_str(), s.lo, s.hi);
	VH_CHECK(c, s.most <= 4, "cancel", "source %s: %zu steps in a row without a look at whether it is cancelled", show(g.src).c_str(), s.most);
	VH_CHECK(c, stopped == (s.calls > s.after), "cancel", "source %s: cancelled %d, parse %s", show(g.src).c_str(), s.calls > s.after, stopped ? "was" : "was not");
	if (root) { W out; Par::link(out, root); same_content(c, g, out); }
	c.sig(hash_w(g.src, stopped));
	c.count(stopped ? "cancelled" : "finished");
}

// Marked sections
struct Cond
{
	Rng& r;
	W src, out;
	std::map<W, W> ents;
	void text(bool shown, bool ignored)
	{
		W s = r.one({ L"abc", L" ", L"d e", L"]] ", L"]", L"\u0161", L"<b>", L"<i x=1>", L"</b>", L"<!-- - -->", L"%", L"x;y" });
		if (ignored && r.coin()) s = L"<";
		src += s;
		if (shown) out += s;
	}
	W cond(const wchar_t* what)
	{
		// Directly, or by an entity, and with others that are empty
		if (!ents.empty() && r.chance(1, 6)) for (auto& e : ents) if (e.second.empty()) return L"%" + e.first + L";" + what;
		for (auto& e : ents) if (e.second == what && r.coin()) return L"%" + e.first + L";";
		return what;
	}
	void body(unsigned d, bool shown)
	{
		for (size_t n = r.below(5); n--;) {
			unsigned k = static_cast<unsigned>(r.below(d ? 6 : 3));
			if (k < 3) text(shown, !shown);
			else if (k == 3) section(L"INCLUDE", d, shown);
			else if (k == 4) section(L"IGNORE", d, false);
			else {
				W s = r.one({ L"<![CDATA[x<b>]]>", L"<![RCDATA[ ]]>", L"<![ CDATA [</i>]]>", L"<![CDATA[]]>" });
				src += s;
				if (shown) out += s;
			}
		}
	}
	void section(const wchar_t* what, unsigned d, bool shown)
	{
		W sp = r.one({ L"", L" ", L"\n" });
		src += L"<![" + sp + cond(what) + r.one({ L"", L" " }) + L"[";
		body(d - 1, shown);
		src += L"]]>";
	}
	void entity(const W& name, const W& val)
	{
		W v = val;
		for (auto& e : ents) if (e.second == val && r.chance(1, 3)) v = L"%" + e.first + L";";
		W q = v.empty() ? r.one({ L"'", L"\"" }) : r.one({ L"", L"'", L"\"" });
		W s = L"<!ENTITY % " + name + r.one({ L" ", L"\n" }) + q + v + q + L">";
		src += s; out += s;
		ents.emplace(name, val); // The first declaration counts.
	}
};
VH_GROUP(sections, 60000, 1200000, 15000)
{
	auto& r = c.rng;
	Cond g{ r };
	for (size_t n = r.below(6); n--;) { W name = r.one({ L"draft", L"d", L"final.1", L"dr", L"Draft" }); g.entity(name, r.chance(1, 8) ? L"" : r.coin() ? L"INCLUDE" : L"IGNORE"); }
	if (r.coin()) {
		// None of these declares a parameter entity with a value.
		W s = r.one({ L"<!ENTITY % nothere SYSTEM 'x.dtd'>", L"<!ENTITY % nothere PUBLIC \"-//X//Y\" 'x.dtd'>", L"<!ENTITY nothere 'INCLUDE'>", L"<!ENTITY nothere SYSTEM 'INCLUDE'>", L"<!ELEMENT % nothere 'INCLUDE'>", L"<!-- ENTITY % nothere 'INCLUDE' -->", L"<!ENTITY % nothere>" });
		g.src += s; g.out += s;
	}
	g.body(3, true);
	W bad;
	bool undefined = r.chance(1, 12);
	if (undefined) g.src += L"<![%nothere;[x]]>";
	Doc doc;
	std::vector<size_t> cuts;
	if (r.coin()) { for (size_t n = r.below(5); n--;) cuts.push_back(static_cast<size_t>(r.below(g.src.size() + 1))); std::sort(cuts.begin(), cuts.end()); }
	bool threw = false;
	use(r, doc);
	try { feed(doc, g.src, cuts); } catch (const std::runtime_error&) { threw = true; }
	VH_CHECK(c, threw == undefined, "entity", "source %s: undefined entity %s reported", show(g.src).c_str(), threw ? "" : "not");
	c.sig(hash_w(g.src));
	if (threw || c.failed) { c.count("undefined entities"); return; }
	Par p(doc);
	W out;
	Par::link(out, p.parse());
	// Text has no entities, only characters that may be linked as ones.
	W plain;
	for (auto ch : out) plain += ch;
	auto unescape = [](const W& s) { W o; for (size_t i = 0; i < s.size(); i++) { if (s.compare(i, 4, L"&gt;") == 0) { o += L'>'; i += 3; } else o += s[i]; } return o; };
	VH_CHECK(c, unescape(out) == g.out, "sections", "source %s: linked is %s, must be %s", show(g.src).c_str(), show(out).c_str(), show(g.out).c_str());
	c.count("documents with marked sections");
}

// Anything at all
static W soup(Rng& r)
{
	static const wchar_t* bits[] = { L"<", L">", L"</", L"/>", L"<!--", L"-->", L"<![CDATA[", L"]]>", L"<![", L"[", L"<!ENTITY % a 'b'>", L"<![%a;[", L"<![IGNORE[", L"<?", L"?>", L"<!", L"--", L"\"", L"'", L"=", L"&", L";", L"&amp;", L"&#18;", L"&#x13;", L"&#18;7FFF0000&#19;", L"&#x12;1&#x13;", L"<style>", L"</style>", L"<script>", L"</script>",
		L"<cite>", L"<address>", L"<kbd>", L"<samp>", L"<code>", L"<comment>", L"</cite>", L"<p>", L"</p>", L"<div>", L"</div>", L"<ul>", L"<li>", L"<table>", L"<tr>", L"<td>", L"</table>", L"<hr>", L"<h1>", L"</h1>", L"<a href=", L"<a href=\"", L"<img alt='", L" title=\"", L"url(", L"url(\"", L"@import '", L")", L"/*", L"*/", L"\\", L"\\12 ", L"\\0", L" ", L"\n",
		L"<body>", L"</body>", L"<html>", L"</html>", L"<head>", L"<meta http-equiv=content-type content=\"text/html; charset=", L"<frameset>", L"<frame src=x>", L"x", L"%a;", L"%", L"\u0161", L"\U0001F600", L"<b/>", L"<style", L"<script x", L"</", L"<isindex>", L"<col>" };
	W s;
	for (size_t n = r.size(60); n--;) s += bits[r.below(std::size(bits))];
	return s;
}
VH_GROUP(hostile, 150000, 4000000, 60000)
{
	auto& r = c.rng;
	W src;
	if (r.chance(1, 3)) src = soup(r);
	else {
		Gen g(r, 1 + r.size(80));
		g.document();
		src = g.src;
		for (size_t n = 1 + r.below(4); n-- && !src.empty();) {
			size_t at = static_cast<size_t>(r.below(src.size()));
			switch (r.below(4)) {
			case 0: src.resize(at); break;
			case 1: src.erase(at, r.below(20)); break;
			case 2: src.insert(at, soup(r)); break;
			default: src[at] = r.one({ L'<', L'>', L'"', L'&', L' ', L'/', L'!', L'-' });
			}
		}
	}
	Doc doc;
	std::vector<size_t> cuts;
	if (r.coin()) { for (size_t n = r.below(8); n--;) cuts.push_back(static_cast<size_t>(r.below(src.size() + 1))); std::sort(cuts.begin(), cuts.end()); }
	c.sig(hash_w(src));
	use(r, doc);
	try {
		feed(doc, src, cuts);
		Par p(doc, nullptr, 0, r.chance(3, 4));
		auto root = p.parse();
		W out;
		Par::link(out, root);
		Walk w(c, src);
		w.maps = false;
		// Whatever it is, positions stay in the document, in order, and no tag is there twice.
		w.tree(*root);
		for (size_t i = 1; i < w.tags.size() && !c.failed; i++) {
			auto a = w.tags[i - 1]->sequence, b = w.tags[i]->sequence;
			VH_CHECK(c, a->interval.end <= b->interval.start && b->interval.end <= src.size(), "order", "source %s: [%zu, %zu) follows [%zu, %zu)", show(src).c_str(), b->interval.start, b->interval.end, a->interval.start, a->interval.end);
		}
		c.count("parsed");
		if (r.chance(1, 4) && out.find_first_of(L"\x12\x13") == W::npos) {
			Doc d2;
			d2.assign(out.data(), out.size());
			Par p2(d2, nullptr, 0, true);
			W again;
			Par::link(again, p2.parse());
			c.count("parsed again");
		}
	}
	catch (const std::invalid_argument&) { c.count("refused"); }
	catch (const std::runtime_error&) { c.count("refused"); }
}

// Text, attributes and URLs rewritten (translated, redirected): the linked document has the new ones, and nothing else changes.
VH_GROUP(edited, 20000, 400000, 12000)
{
	auto& r = c.rng;
	Gen g(r, 1 + r.size(60));
	g.document();
	Doc doc;
	doc.assign(g.src.data(), g.src.size());
	Par p(doc, nullptr, 0, g.frames);
	auto root = p.parse();
	size_t edits = 0;
	auto any = [&](bool blanks) {
		W s;
		for (size_t n = 1 + r.below(6); n--;) {
			if (r.chance(1, 3)) s += static_cast<wchar_t>(L'a' + r.below(26));
			else s += r.one({ L"<", L">", L"&", L"\"", L"'", L";", L"</p>", L"<br>", L"&amp;", L"&lt;", L"%", L"]]>", L"<![CDATA[", L"<!--", L"=", L"/", L"(", L")", L"\\", L"\u00a0", L"\u0161", L"\U0001F600", L"#", L"+" });
			if (blanks && r.chance(1, 4)) s += r.one({ L' ', L'\n', L'\t' });
		}
		return s + L"z";
	};
	auto bare = [&](const W& t, size_t at) { return !at || (t[at - 1] != L'"' && t[at - 1] != L'\''); };
	auto word = [&] { W s; for (size_t n = 1 + r.below(8); n--;) s += r.one({ L'a', L'b', L'7', L'.', L'-', L'_' }); return s; };
	std::function<void(TextTok&)> edit = [&](TextTok& t) {
		const bool whole = (t.text_type & (sh::has_text | sh::has_tokens)) == sh::has_text;
		W now;
		const W before = t.text;
		for (size_t i = 0; i < before.size();) {
			size_t at = i;
			sh::token* k = t.text_type & sh::has_tokens ? sh::token::parse_tag(before.data(), i) : nullptr;
			if (k) {
				now.append(before, at, i - at);
				if (auto u = dynamic_cast<UrlTok*>(k)) {
					if (r.chance(1, 3)) continue;
					edits++;
					const bool css = u->encoding == sh::token_url_t::css;
					if (bare(before, at) && !css) { u->url = word(); if (r.coin()) u->encoding = sh::token_url_t::plain; }
					else if (r.chance(1, 4)) { u->url = word(); u->encoding = sh::token_url_t::plain; c.count("URLs as they are"); }
					else u->url = any(!css || !bare(before, at));
				}
				else if (auto x = dynamic_cast<TextTok*>(k)) {
					if ((x->text_type & sh::is_attribute)) {
						if (r.chance(1, 3)) continue;
						edits++;
						x->text = bare(before, at) ? word() : any(true);
					}
					else edit(*x);
				}
				continue;
			}
			if ((t.text_type & sh::has_text) && r.chance(1, 30)) { now += any(true); edits++; }
			now += before[i++];
		}
		if (whole && !r.chance(1, 3)) { now += any(true); edits++; }
		t.text = now;
	};
	edit(*root);
	W out, want, got;
	Par::link(out, root);
	shape(*root, want);
	c.sig(hash_w(out));
	Doc d2;
	{
		Exact<wchar_t> x(out);
		d2.assign(x.data(), out.size());
	}
	Par p2(d2, nullptr, 0, g.frames);
	auto root2 = p2.parse();
	shape(*root2, got);
	size_t k = 0;
	while (k < want.size() && k < got.size() && want[k] == got[k]) k++;
	VH_CHECK(c, got == want, "edited", "source %s: edited to \"%s\", linked says \"%s\": %s", show(g.src).c_str(), where(want, k).c_str(), where(got, k).c_str(), show(out).c_str());
	c.count("edits", edits);
	// An encoding there is not
	if (r.chance(1, 10)) for (auto& t : p.tokens()) if (auto u = dynamic_cast<UrlTok*>(t.get())) {
		u->encoding = static_cast<sh::token_url_t>(r.range(3, 200));
		bool threw = false;
		W o;
		try { Par::link(o, root); } catch (const std::invalid_argument&) { threw = true; }
		VH_CHECK(c, threw, "edited-encoding", "source %s: linked with an unknown encoding of an URL", show(g.src).c_str());
		c.count("unknown encodings");
		break;
	}
}

// Tags of tokens in text of either kind
VH_GROUP(token_tags, 3000, 60000, 500)
{
	auto& r = c.rng;
	W src = L"<p title='a'>x<br><a href=y>z";
	for (size_t n = r.below(5); n--;) src += L"<b>x</b>";
	Doc doc;
	doc.assign(src.data(), src.size());
	Par p(doc);
	p.parse();
	std::vector<sh::token*> all;
	for (auto& t : p.tokens()) all.push_back(t.get());
	std::string a;
	W w;
	std::vector<std::pair<size_t, sh::token*>> in;
	for (size_t n = 1 + r.below(12); n--;) {
		if (r.coin()) { std::string s = r.one({ "x", "abc", "1F", " ", "%s", "FFFF" }); a += s; w += W(s.begin(), s.end()); continue; }
		auto t = r.pick(all);
		in.push_back({ a.size(), t });
		size_t n1 = t->append_tag(a), n2 = t->append_tag(w);
		VH_CHECK(c, n1 == n2 && a.size() == w.size() && a.size() - in.back().first == n1 && n1 < sh::token_tag_max, "token-tag", "tags of %zu and %zu characters", n1, n2);
	}
	VH_CHECK(c, W(a.begin(), a.end()) == w, "token-tag", "\"%s\" in char, \"%s\" in wchar_t", a.c_str(), show(w).c_str());
	bool broken = r.chance(1, 4);
	std::string tail;
	if (broken) { tail = r.one({ "\x12", "\x12" "1A2B", "\x12" "12 " }); a += tail; }
	Exact<char> xa(a + '\0');
	Exact<wchar_t> xw(W(a.begin(), a.end()) + L'\0');
	size_t n = 0;
	for (size_t i = 0; i < a.size() && !c.failed;) {
		size_t j = i, k = i;
		auto t1 = sh::token::parse_tag(xa.data(), j), t2 = sh::token::parse_tag(xw.data(), k);
		bool is = n < in.size() && in[n].first == i;
		VH_CHECK(c, t1 == t2 && j == k && (is ? t1 == in[n].second && j > i : !t1 && j == i), "token-tag", "\"%s\": at %zu is token %p and %p, up to %zu and %zu", vh::show(a).c_str(), i, static_cast<void*>(t1), static_cast<void*>(t2), j, k);
		if (is) { n++; i = j; }
		else i++;
	}
	VH_CHECK(c, c.failed || n == in.size(), "token-tag", "%zu tokens, must be %zu", n, in.size());
	bool threw = false;
	size_t at = 0;
	try { sh::token::parse_tag(r.coin() ? "\x12\x13" : "\x12" "0\x13", at); } catch (const std::invalid_argument&) { threw = true; }
	VH_CHECK(c, threw && !at, "token-tag-null", "tag of no token was accepted");
	c.sig(hash_bytes(a.data(), a.size()));
	c.count("tags of tokens", in.size());
}

VH_GROUP(large, 24, 96, 20)
{
	auto& r = c.rng;
	W src, unit;
	static const wchar_t* units[] = { L"<div>", L"<div>x", L"<hr>", L"<p>", L"<p>x<br>", L"<b>", L"<ul><li>", L"<table><tr><td>", L"<x>", L"</b>", L"<br/>", L"&amp;", L"<blockquote><p>y</p>", L"<base>", L"<cite>", L"<a href=x>", L"text ", L"<foo><div>", L"<!-- -->", L"<![CDATA[x]]>", L"<![INCLUDE[", L"<form>", L"<script></script>", L"<isindex>x" };
	unit = units[c.index % std::size(units)];
	size_t n = c.index < std::size(units) ? 20000 : static_cast<size_t>(r.range(5000, 40000));
	for (size_t i = 0; i < n; i++) src += unit;
	auto t0 = std::chrono::steady_clock::now();
	Doc doc;
	doc.assign(src.data(), src.size());
	Par p(doc);
	auto root = p.parse();
	W out;
	Par::link(out, root);
	double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	c.sig(hash_w(unit, n));
	if (unit != L"<![INCLUDE[") VH_CHECK(c, out == src, "large", "%zu times %s: linked has %zu characters, must have %zu", n, show(unit).c_str(), out.size(), src.size());
	VH_CHECK(c, s < 60, "time", "%zu times %s took %.1f s", n, show(unit).c_str(), s);
	c.count("characters", src.size());
}

// Names of elements
VH_GROUP(names, 20000, 200000, 3000)
{
	static const char* all[] = { "a", "abbr", "acronym", "address", "applet", "area", "b", "base", "basefont", "bdo", "bgsound", "big", "blink", "blockquote", "body", "br", "button", "caption", "center", "cite", "code", "col", "colgroup", "comment", "dd", "del", "dfn", "dir", "div", "dl", "dt", "em", "embed", "fieldset", "font", "form", "frame", "frameset",
		"h1", "h2", "h3", "h4", "h5", "h6", "head", "hr", "html", "i", "iframe", "img", "input", "ins", "isindex", "kbd", "label", "legend", "li", "link", "listing", "map", "marquee", "menu", "meta", "nextid", "nobr", "noembed", "noframes", "noscript", "object", "ol", "optgroup", "option", "p", "param", "plaintext", "pre", "q", "rt", "ruby", "s", "samp", "script",
		"select", "small", "span", "strike", "strong", "style", "sub", "sup", "table", "tbody", "td", "textarea", "tfoot", "th", "thead", "title", "tr", "tt", "u", "ul", "var", "wbr", "xmp" };
	auto& r = c.rng;
	size_t n = c.index % std::size(all);
	std::string s = all[n];
	for (auto& ch : s) if (r.chance(1, 3)) ch = static_cast<char>(toupper(ch));
	W w(s.begin(), s.end());
	bool known = true;
	if (c.index >= 3 * std::size(all)) {
		size_t at = static_cast<size_t>(r.below(w.size()));
		switch (r.below(5)) {
		case 0: w.erase(at, 1); break;
		case 1: w.insert(at, 1, r.one({ L'a', L'b', L'-', L'1', L':', L'\u0161' })); break;
		case 2: w[at] = static_cast<wchar_t>(w[at] + 0x100 * r.range(1, 0x100)); break; // The same when cut to 8 bits
		case 3: w[at] = static_cast<wchar_t>(r.range(1, 0x250)); break;
		default: w.resize(at);
		}
		known = false;
		W low; for (auto ch : w) low += ch < 0x80 ? static_cast<wchar_t>(tolower(ch)) : ch;
		for (size_t k = 0; k < std::size(all); k++) if (low == W(all[k], all[k] + strlen(all[k]))) { known = true; n = k; }
	}
	auto want = known ? static_cast<sh::element_t>(n + 1) : sh::element_t::unknown;
	Exact<wchar_t> x(w);
	auto got = sh::element::element_code(x.data(), w.size());
	VH_CHECK(c, got == want, "element-code", "\"%s\" is element %d, must be %d", show(w).c_str(), static_cast<int>(got), static_cast<int>(want));
	bool narrow = true; for (auto ch : w) if (ch > 0x7e) narrow = false;
	if (narrow) {
		std::string a(w.begin(), w.end());
		Exact<char> y(a);
		got = sh::element::element_code(y.data(), a.size());
		VH_CHECK(c, got == want, "element-code", "\"%s\" in char is element %d, must be %d", a.c_str(), static_cast<int>(got), static_cast<int>(want));
	}
	c.sig(hash_w(w));
	c.count(known ? "known names" : "other names");
}

// Which elements may be directly inside of which: the loose document type of HTML 4.01, told apart from the library's own table
struct Dtd
{
	using Set = std::set<std::string>;
	std::map<std::string, Set> may;
	Set empty;
	std::vector<std::string> all;

	static Set words(const char* s)
	{
		Set o;
		std::istringstream i(s);
		for (std::string w; i >> w;) o.insert(w);
		return o;
	}
	static Set both(Set a, const Set& b) { a.insert(b.begin(), b.end()); return a; }
	static Set less(Set a, const Set& b) { for (auto& x : b) a.erase(x); return a; }

	Dtd()
	{
		Set
			fontstyle = words("tt i b u s strike big small"),
			phrase = words("em strong dfn code samp kbd var cite abbr acronym"),
			special = words("a img applet object font basefont br script map q sub sup span bdo iframe"),
			formctrl = words("input select textarea label button"),
			inl = both(both(both(both(fontstyle, phrase), special), formctrl), words("ins del")), // INS and DEL may be anywhere in the body
			heading = words("h1 h2 h3 h4 h5 h6"),
			block = both(heading, words("p ul ol dir menu pre dl div center noscript noframes blockquote form isindex hr table fieldset address")),
			flow = both(inl, block);
		empty = words("area base basefont br col frame hr img input isindex link meta param");
		auto set = [&](const char* who, const Set& what) { for (auto& w : words(who)) may[w] = what; };
		for (auto& w : fontstyle) may[w] = inl;
		for (auto& w : phrase) if (w != "code") may[w] = inl; // Code is verbatim here
		for (auto& w : heading) may[w] = inl;
		set("p q sub sup span bdo font dt caption legend", inl);
		set("body div center blockquote dd li td th iframe noscript ins del", flow);
		set("address", both(inl, words("p")));
		set("a", less(inl, words("a")));
		set("label", less(inl, words("label")));
		set("pre", less(inl, words("img object applet big small sub sup font basefont")));
		set("form", less(flow, words("form")));
		set("noframes", less(both(flow, words("body")), words("noframes")));
		set("button", less(less(flow, formctrl), words("a form isindex fieldset iframe")));
		set("object applet", both(flow, words("param")));
		set("fieldset", both(flow, words("legend")));
		set("map", both(block, words("area")));
		set("dl", words("dt dd"));
		set("ul ol dir menu", words("li"));
		set("select", words("optgroup option"));
		set("optgroup", words("option"));
		set("option textarea title", {});
		set("table", words("caption col colgroup thead tfoot tbody tr"));
		set("thead tfoot tbody", words("tr"));
		set("colgroup", words("col"));
		set("tr", words("td th"));
		set("frameset", words("frameset frame noframes"));
		set("head", words("title isindex base script style meta link object"));
		set("html", words("head body frameset"));
		for (auto& m : may) all.push_back(m.first);
		all.insert(all.end(), empty.begin(), empty.end());
	}
};

VH_GROUP(nesting, 40000, 600000, 12000)
{
	static const Dtd dtd;
	auto& r = c.rng;
	struct Tag { std::string name; size_t at, ends = no; bool spans, hidden = false; };
	auto copied = [](const std::string& n) { return n == "address" || n == "cite" || n == "kbd" || n == "samp"; }; // What is inside of these is no token of its own
	std::vector<Tag> tags;
	std::vector<size_t> open, ended;
	W src;
	auto put = [&](const char* before, const std::string& name) { src += W(before, before + strlen(before)); for (auto ch : name) src += static_cast<wchar_t>(r.chance(1, 4) ? toupper(ch) : ch); src += L'>'; };
	size_t n = 2 + r.below(r.chance(1, 10) ? 20 : 4), all = dtd.all.size();
	for (size_t i = 0; i < n; i++) {
		std::string name = i == 0 ? dtd.all[c.index % all] : i == 1 ? dtd.all[c.index / all % all] : r.pick(dtd.all);
		if (i > 1 && !open.empty() && r.coin()) { // One that may, for depth
			auto& m = dtd.may.at(tags[open.back()].name);
			if (!m.empty()) name = *std::next(m.begin(), static_cast<ptrdiff_t>(r.below(m.size())));
		}
		if (name == "code" || name == "script" || name == "style") name = "span"; // Verbatim inside
		Tag t{ name, src.size(), no, !dtd.empty.count(name) };
		while (!open.empty() && !dtd.may.at(tags[open.back()].name).count(name)) { tags[open.back()].ends = t.at; open.pop_back(); c.count("elements ended by what cannot be inside"); }
		if (!open.empty()) c.count("elements inside of another");
		put("<", name);
		for (auto k : open) if (copied(tags[k].name)) t.hidden = true;
		tags.push_back(t);
		if (t.spans) open.push_back(tags.size() - 1);
		if (r.chance(1, 3)) src += L"w ";
		if (!open.empty() && r.chance(1, 6)) {
			// The end of any of them is the end of what is left open inside of it
			size_t k = r.coin() ? open.size() - 1 : static_cast<size_t>(r.below(open.size()));
			size_t at = src.size();
			std::string ending = tags[open[k]].name;
			put("</", ending);
			// Nearest one of that name
			for (k = open.size(); tags[open[--k]].name != ending;) ;
			while (open.size() > k) { tags[open.back()].ends = at; open.pop_back(); }
			c.count("end tags");
		}
	}
	Doc doc;
	{
		Exact<wchar_t> x(src);
		doc.assign(x.data(), src.size());
	}
	Par p(doc, nullptr, 0, true);
	auto root = p.parse();
	W out;
	Par::link(out, root);
	VH_CHECK(c, out == src, "nesting-link", "%s is linked back as %s", show(src).c_str(), show(out).c_str());
	Walk w(c, src);
	w.tree(*root);
	if (c.failed) return;
	size_t k = 0;
	for (auto t : w.tags) {
		if (t->sequence->type == html_seq::element_end) continue;
		while (k < tags.size() && tags[k].hidden) k++;
		VH_CHECK(c, k < tags.size() && t->sequence->interval.start == tags[k].at, "nesting-tags", "%s: start tag %zu is at %zu", show(src).c_str(), k, t->sequence->interval.start);
		if (c.failed) return;
		auto& m = tags[k++];
		auto st = dynamic_cast<const StartTok*>(t);
		VH_CHECK(c, !!st == m.spans, "nesting-empty", "%s: <%s> at %zu %s", show(src).c_str(), m.name.c_str(), m.at, st ? "is taken for a start" : "is not a start");
		if (c.failed || !st) continue;
		size_t e = st->end_sequence ? st->end_sequence->interval.start : no;
		VH_CHECK(c, e == m.ends, "nesting", "%s: <%s> at %zu ends at %zd, must end at %zd", show(src).c_str(), m.name.c_str(), m.at, static_cast<ssize_t>(e), static_cast<ssize_t>(m.ends));
	}
	while (k < tags.size() && tags[k].hidden) k++;
	VH_CHECK(c, c.failed || k == tags.size(), "nesting-tags", "%s: %zu start tags, must be %zu", show(src).c_str(), k, tags.size());
	c.sig(hash_w(src));
	if (c.index < 3) c.sample(show(src));
}

// Frames
VH_GROUP(frames, 50, 500, 4)
{
	auto& r = c.rng;
	W src = L"<html><frameset cols=\"1,2\"><frame src=\"a.html\">" + W(r.coin() ? L"<noframes>x</noframes>" : L"") + L"</frameset>" + W(r.coin() ? L"</html>" : L"");
	Doc doc;
	doc.assign(src.data(), src.size());
	bool frames = r.coin(), threw = false;
	W out;
	Par p(doc, nullptr, 0, frames);
	try { Par::link(out, p.parse()); } catch (const std::invalid_argument&) { threw = true; }
	VH_CHECK(c, threw == !frames && (threw || out == src), "frames", "%s: frames %d, refused %d, linked %s", show(src).c_str(), frames, threw, show(out).c_str());
	c.sig(hash_w(src, frames));
}

// Tags around words that moved: every word stays inside of the elements it shall be in.
VH_GROUP(moving, 30000, 500000, 15000)
{
	auto& r = c.rng;
	// <e0><e1>...: tokens to pick from
	W src;
	size_t n = 1 + static_cast<size_t>(r.below(8));
	for (size_t i = 0; i < n; i++) src += L"<x" + std::to_wstring(i) + (r.coin() ? L" title='t'>" : L">");
	size_t m = static_cast<size_t>(r.below(5));
	for (size_t i = 0; i < m; i++) src += L"<br id=" + std::to_wstring(i) + L">";
	Doc doc;
	doc.assign(src.data(), src.size());
	Par p(doc);
	auto root = p.parse();
	std::vector<sh::token*> start, empty;
	for (auto& t : p.tokens()) {
		if (t->type == sh::token_t::starting) start.push_back(t.get());
		else if (t->type == sh::token_t::complete && t.get() != root && t->sequence && t->sequence->type == html_seq::element_start && !(static_cast<TextTok*>(t.get())->text_type & sh::has_text)) empty.push_back(t.get());
	}
	VH_CHECK(c, start.size() == n && empty.size() == m, "moving-setup", "%zu starting and %zu other tokens in %s", start.size(), empty.size(), show(src).c_str());
	if (c.failed) return;
	auto list = [&] { sh::token_list l; auto s = start; for (size_t k = r.below(std::min<size_t>(n, 4) + 1); k--;) { size_t i = static_cast<size_t>(r.below(s.size())); l.push_back(s[i]); s.erase(s.begin() + static_cast<ssize_t>(i)); } return l; };
	struct Ins { sh::token* t; sh::token_list active; size_t word; bool after; };
	std::vector<Ins> ins;
	sh::inserted_token_list todo;
	const size_t words = 1 + static_cast<size_t>(r.below(6));
	for (auto t : empty) { Ins x{ t, list(), static_cast<size_t>(r.below(words + 1)), r.coin() }; ins.push_back(x); sh::inserted_token it; it.token = t; it.active_tokens = x.active; it.word_index = x.word; it.after_word = x.after; todo.push_back(it); }
	W out;
	sh::token_list active;
	std::vector<sh::token_list> want;
	sh::token_list prev = list();
	for (size_t i = 0; i < words; i++) {
		auto l = r.chance(1, 3) ? prev : list();
		if (r.chance(1, 4)) { l = prev; if (!l.empty() && r.coin()) l.pop_back(); }
		prev = l;
		want.push_back(l);
		p.append_inserted_tokens(out, todo, i, false, active);
		Par::start_tokens(out, active, l, p.end_tokens(out, active, l));
		VH_CHECK(c, active == l, "moving-active", "%zu active tokens, must be %zu", active.size(), l.size());
		out += static_cast<wchar_t>(L'A' + i);
		p.append_inserted_tokens(out, todo, i, true, active);
	}
	p.end_tokens(out, active, sh::token_list());
	VH_CHECK(c, active.empty(), "moving-active", "%zu tokens are active at the end", active.size());
	// Read back
	std::vector<const sh::token*> stack;
	size_t done = 0, ends = 0;
	std::vector<bool> seen(ins.size());
	size_t cur = no; // Last word
	for (size_t i = 0; i < out.size() && !c.failed;) {
		auto t = sh::token::parse_tag(out.data(), i);
		auto is = [&](const sh::token_list& l) { return stack.size() == l.size() && std::equal(stack.begin(), stack.end(), l.begin()); };
		if (!t) {
			cur = static_cast<size_t>(out[i++] - L'A');
			VH_CHECK(c, cur == done && cur < want.size() && is(want[cur]), "moving-word", "word %zu is inside of %zu elements, must be of %zu", cur, stack.size(), cur < want.size() ? want[cur].size() : 0);
			for (size_t k = 0; k < ins.size(); k++) if (!seen[k] && !ins[k].after && ins[k].word == cur) c.fail("moving-lost", "a token is not before word %zu", cur);
			done++;
		}
		else if (t->type == sh::token_t::starting) stack.push_back(t);
		else if (t->type == sh::token_t::ending) {
			ends++;
			VH_CHECK(c, !stack.empty() && static_cast<const TextTok*>(t)->text == L"</" + static_cast<const StartTok*>(stack.back())->name + L">", "moving-end", "end tag %s does not end what is started", show(static_cast<const TextTok*>(t)->text).c_str());
			if (!c.failed) stack.pop_back();
		}
		else {
			size_t k = 0;
			while (k < ins.size() && ins[k].t != t) k++;
			VH_CHECK(c, k < ins.size() && !seen[k] && is(ins[k].active) && (ins[k].after ? cur == ins[k].word : done == ins[k].word), "moving-inserted", "an inserted token is after word %zd or inside of %zu elements", static_cast<ssize_t>(cur), stack.size());
			if (k < ins.size()) seen[k] = true;
		}
	}
	VH_CHECK(c, stack.empty() && done == words, "moving-words", "%zu words and %zu open elements at the end", done, stack.size());
	size_t left = 0;
	for (size_t k = 0; k < ins.size(); k++) { bool due = ins[k].word < words; VH_CHECK(c, seen[k] == due, "moving-lost", "inserted token for word %zu of %zu is %s", ins[k].word, words, seen[k] ? "there" : "lost"); if (!due) left++; }
	VH_CHECK(c, todo.size() == left, "moving-left", "%zu tokens are left to insert, must be %zu", todo.size(), left);
	// It links
	root->text = out;
	root->text_type = sh::has_tokens | sh::has_text;
	W html;
	Par::link(html, root);
	size_t opens = 0, closes = 0;
	for (size_t i = 0; i + 1 < html.size(); i++) { if (html[i] == L'<' && html[i + 1] == L'x') opens++; if (html[i] == L'<' && html[i + 1] == L'/') closes++; }
	VH_CHECK(c, opens == closes && closes == ends, "moving-link", "%zu start and %zu end tags in %s", opens, closes, show(html).c_str());
	// merge
	auto a = list(), b = list(), u = a;
	for (auto t : b) if (std::find(u.begin(), u.end(), t) == u.end()) u.push_back(t);
	auto got = a;
	Par::merge(got, b);
	VH_CHECK(c, got == u, "merge", "%zu and %zu tokens merge to %zu, must be %zu", a.size(), b.size(), got.size(), u.size());
	c.sig(hash_w(html));
	c.count("words", words);
	c.count("inserted tokens", ins.size() - left);
}

VH_MAIN
