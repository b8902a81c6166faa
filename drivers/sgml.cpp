// E05: SGML entities against an independent codec (snapshot of the entity table, linear lookup).
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/sgml.hpp>

using namespace vh;
using u32s = std::vector<uint32_t>;

struct raw_t { const char* name; uint32_t uni[3]; };
static const raw_t raw[] = {
#include "sgml_table.inc"
};
struct row_t { const char* name; u32s uni; };
static const std::vector<row_t> rows = [] { std::vector<row_t> v; for (auto& x : raw) v.push_back({ x.name, x.uni[1] ? u32s{ x.uni[0], x.uni[1] } : u32s{ x.uni[0] } }); return v; }();
static std::map<std::string, std::vector<u32s>>& by_name()
{
	static std::map<std::string, std::vector<u32s>> m = [] { std::map<std::string, std::vector<u32s>> r; for (auto& x : rows) r[x.name].push_back(x.uni); return r; }();
	return m;
}
static std::set<u32s>& has_entity()
{
	static std::set<u32s> s = [] { std::set<u32s> r; for (auto& x : rows) r.insert(x.uni); return r; }();
	return s;
}

template <class T> static void put(std::basic_string<T>& s, uint32_t ch)
{
	if (sizeof(T) == 2 && ch >= 0x10000) {
		s += static_cast<T>(0xd800 + ((ch - 0x10000) >> 10));
		s += static_cast<T>(0xdc00 + ((ch - 0x10000) & 0x3ff));
	}
	else s += static_cast<T>(ch);
}
template <class T> static std::basic_string<T> str(const u32s& v) { std::basic_string<T> s; for (auto x : v) put(s, x); return s; }

struct flag_t { int flag; const char* chars; };
static const flag_t flags[] = {
	{ stdex::sgml_quot, "\"" }, { stdex::sgml_apos, "'" }, { stdex::sgml_amp, "&" }, { stdex::sgml_lt_gt, "<>" }, { stdex::sgml_bsol, "\\" }, { stdex::sgml_dollar, "$" },
	{ stdex::sgml_percnt, "%" }, { stdex::sgml_commat, "@" }, { stdex::sgml_num, "#" }, { stdex::sgml_lpar_rpar, "()" }, { stdex::sgml_lcub_rcub, "{}" }, { stdex::sgml_lsqb_rsqb, "[]" },
};
static int some_flags(Rng& r)
{
	if (r.chance(1, 3)) return 0;
	if (r.chance(1, 4)) return r.one({ stdex::sgml_sgml, stdex::sgml_ml_attrib, stdex::sgml_c, stdex::sgml_quot_apos });
	int f = 0;
	for (auto& x : flags) if (r.chance(1, 3)) f |= x.flag;
	return f;
}
static bool flagged(int f, uint32_t ch)
{
	for (auto& x : flags) if ((f & x.flag) && ch && ch < 0x80 && strchr(x.chars, static_cast<int>(ch))) return true;
	return false;
}

// What an entity (the text between & and ;) stands for. 0: nothing, 1: known, 2: unspecified (a number followed by something else)
template <class T> static int lookup(const std::basic_string<T>& e, std::vector<u32s>& out)
{
	out.clear();
	std::string n;
	for (auto ch : e) {
		if (static_cast<uint32_t>(ch) >= 0x80) return e.size() > 1 && e[0] == '#' ? 2 : 0;
		n += static_cast<char>(ch);
	}
	if (n.size() >= 2 && n[0] == '#') {
		bool hex = n[1] == 'x' || n[1] == 'X';
		uint64_t v = 0;
		size_t i = hex ? 2 : 1;
		for (; i < n.size(); i++) {
			int d = n[i] >= '0' && n[i] <= '9' ? n[i] - '0' : hex && n[i] >= 'a' && n[i] <= 'f' ? n[i] - 'a' + 10 : hex && n[i] >= 'A' && n[i] <= 'F' ? n[i] - 'A' + 10 : -1;
			if (d < 0) break;
			v = std::min<uint64_t>(v * (hex ? 16 : 10) + d, 0xffffffffffull);
		}
		if (i < n.size() && i > (hex ? 2u : 1u)) return 2;
		if (i < n.size() && strchr("+-xX", n[i])) return 2; // Signs, 0x prefixes
		if (i < n.size() || !v || v > 0x10ffff) return 0;
		out.push_back({ static_cast<uint32_t>(v) });
		return 1;
	}
	auto it = by_name().find(n);
	if (it == by_name().end()) return 0;
	out = it->second;
	return 1;
}
struct token_t { size_t from, to; bool entity; std::vector<u32s> alt; };

// SGML text to tokens; false if it contains something unspecified.
template <class T> static bool tokenize(const std::basic_string<T>& s, std::vector<token_t>& out, size_t* err = nullptr, bool ascii_only = false)
{
	out.clear();
	if (err) *err = stdex::npos;
	for (size_t i = 0; i < s.size();) {
		token_t t{ i, i + 1, false, { { static_cast<uint32_t>(s[i]) } } };
		if (s[i] == '&') {
			size_t k = i + 1;
			while (k < s.size() && s[k] != ';' && s[k] != '&' && !(s[k] == ' ' || (s[k] >= 9 && s[k] <= 13))) k++;
			std::vector<u32s> alt;
			int f = k < s.size() && s[k] == ';' ? lookup(s.substr(i + 1, k - i - 1), alt) : 0;
			if (f == 2) return false;
			if (f == 1) t = { i, k + 1, true, alt };
			else if (err && *err == stdex::npos) *err = i;
		}
		else if (err && *err == stdex::npos && ascii_only && static_cast<uint32_t>(s[i]) >= 0x80) *err = i;
		out.push_back(t);
		i = t.to;
	}
	return true;
}

static uint32_t some_char(Rng& r)
{
	switch (r.below(12)) {
	case 0: case 1: case 2: return static_cast<uint32_t>("abcxyzABC019 .,;\t\n"[r.below(18)]);
	case 3: case 4: return static_cast<uint32_t>("&\"'<>\\$%@#(){}[];"[r.below(17)]);
	case 5: return 0x21 + static_cast<uint32_t>(r.below(0x7f - 0x21));
	case 6: return 0x300 + static_cast<uint32_t>(r.below(0x70));
	case 7: return r.one<uint32_t>({ 0x1dc0, 0x1dff, 0x20d0, 0x20d2, 0x20ff, 0xfe20, 0xfe2f, 0x338, 0xfe00, 0x1fbf, 0x80, 0x7f, 0xa0, 0xff, 0xffff, 0x10000, 0x10ffff });
	case 8: { uint32_t c = 0x80 + static_cast<uint32_t>(r.below(0x2800)); return c; }
	case 9: { uint32_t c = 0x10000 + static_cast<uint32_t>(r.below(0x100000)); return c; }
	case 10: return 0x1d400 + static_cast<uint32_t>(r.below(0x400));
	default: { uint32_t c = 1 + static_cast<uint32_t>(r.below(0xffff)); return c >= 0xd800 && c < 0xe000 ? 'q' : c; }
	}
}

// Does the SGML text spell exactly `want`? Alternatives may be prefixes of one another.
static bool spells(const std::vector<token_t>& t, size_t i, const u32s& want, size_t j, unsigned& fuel)
{
	while (i < t.size()) {
		if (t[i].alt.size() == 1 || !fuel) {
			auto& a = t[i].alt[0];
			if (want.size() - j < a.size() || !std::equal(a.begin(), a.end(), want.begin() + j)) return false;
			j += a.size();
			i++;
			continue;
		}
		for (auto& a : t[i].alt) {
			if (want.size() - j < a.size() || !std::equal(a.begin(), a.end(), want.begin() + j)) continue;
			if (fuel) fuel--;
			if (spells(t, i + 1, want, j + a.size(), fuel)) return true;
		}
		return false;
	}
	return j == want.size();
}

template <class T> static void encode(Case& c)
{
	auto& r = c.rng;
	u32s text;
	size_t want_len = r.size(120);
	if (c.index < rows.size()) text = rows[c.index].uni; // Every row at least once
	while (text.size() < want_len) {
		if (r.chance(1, 4)) { auto& u = rows[r.below(rows.size())].uni; text.insert(text.end(), u.begin(), u.end()); }
		else text.push_back(some_char(r));
		if (r.chance(1, 12)) for (char ch : std::string(r.one({ "&amp;", "&#x41;", "&#0;", "&&;", "&lt", "&unknown;", ";" }))) text.push_back(static_cast<uint32_t>(ch));
	}
	auto src = str<T>(text);
	int what = some_flags(r) | (r.chance(1, 4) ? stdex::sgml_full : 0);
	size_t lim = src.size();
	bool nul = r.chance(1, 6);
	std::basic_string<T> padded = src;
	if (nul) { padded += T(0); padded += T('&'); padded += T('Z'); lim = padded.size(); }
	Exact<T> x(padded);
	std::string out = r.coin() ? "pre&" : "", pre = out;
	stdex::str2sgmlcat(out, x.data(), lim, what);
	VH_CHECK(c, out.compare(0, pre.size(), pre) == 0, "encode-append", "earlier text lost: %s", show(out).c_str());
	std::string enc = out.substr(pre.size());
	for (unsigned char ch : enc) if (ch >= 0x80) { c.fail("encode-ascii", "%s encoded as %s", show(src).c_str(), show(enc).c_str()); return; }
	std::vector<token_t> t;
	unsigned fuel = 2000;
	if (!tokenize(enc, t)) { c.fail("encode-malformed", "%s encoded as %s", show(src).c_str(), show(enc).c_str()); return; }
	VH_CHECK(c, spells(t, 0, text, 0, fuel), "encode", "%s encoded (%x) as %s", show(src).c_str(), what, show(enc).c_str());
	for (auto& k : t) {
		uint32_t ch = k.alt[0][0];
		if (!k.entity) {
			VH_CHECK(c, ch != '&' && !flagged(what, ch), "encode-flag", "%s encoded (%x) as %s: character at %zu", show(src).c_str(), what, show(enc).c_str(), k.from);
			VH_CHECK(c, !(what & stdex::sgml_full) || !has_entity().count({ ch }), "encode-full", "%s encoded (%x) as %s: character at %zu", show(src).c_str(), what, show(enc).c_str(), k.from);
		}
		else if (enc[k.from + 1] == '#' && (sizeof(T) == 4 || ch < 0x10000))
			VH_CHECK(c, !has_entity().count({ ch }), "encode-name", "%s encoded as %s: character at %zu has a name", show(src).c_str(), show(enc).c_str(), k.from);
	}
	if (c.failed) return;
	VH_CHECK(c, stdex::sgmlerr(enc.data(), enc.size()) == stdex::npos, "encode-err", "own output reported wrong: %s", show(enc).c_str());
	// And back
	std::basic_string<T> back = stdex::sgml2str<T>(enc.data(), enc.size()), want;
	for (auto& k : t) want += str<T>(k.alt[0]);
	VH_CHECK(c, back == want, "round-trip", "%s encoded as %s decodes to %s", show(src).c_str(), show(enc).c_str(), show(back).c_str());
	// The other overloads agree
	VH_CHECK(c, stdex::str2sgml(src, what) == enc, "encode-overload", "%s", show(src).c_str());
	std::string cpy = "old";
	stdex::str2sgmlcpy(cpy, src, what);
	VH_CHECK(c, cpy == enc, "encode-overload", "%s", show(src).c_str());
	// Caller's buffer of every interesting size
	for (int i = 0; i < 3; i++) {
		bool cat = r.coin();
		std::string p = cat ? std::string(r.below(6), 'p') : "";
		size_t need = p.size() + enc.size() + 1;
		size_t size = r.chance(1, 3) ? need : r.chance(1, 2) ? (need > 14 ? need - 1 - r.below(14) : r.below(need + 1)) : need + r.below(5);
		if (r.chance(1, 6)) size = r.below(need + 4);
		if (size < p.size() + 1) p.clear(), cat = false, need = enc.size() + 1;
		std::vector<char> init(size, '#');
		if (cat) { std::copy(p.begin(), p.end(), init.begin()); init[p.size()] = 0; }
		Exact<char> dst(init);
		bool threw = false;
		size_t len = 0;
		try { len = cat ? stdex::str2sgmlcat(dst.data(), size, x.data(), lim, what) : stdex::str2sgmlcpy(dst.data(), size, x.data(), lim, what); }
		catch (const std::invalid_argument&) { threw = true; }
		VH_CHECK(c, threw == (size < need), "encode-buffer-report", "%s into %zu of %zu characters: %s", show(enc).c_str(), size, need, threw ? "refused" : "accepted");
		if (!threw && size >= need) VH_CHECK(c, len == need - 1 && std::string(dst.data(), len) == p + enc && !dst.data()[len], "encode-buffer", "%s into %zu characters", show(enc).c_str(), size);
	}
	if (text.size() > 1) c.sig(hash_bytes(src.data(), src.size() * sizeof(T), what));
}
VH_GROUP(encode, 12000, 400000, 8000)
{
	if (c.index & 1) { c.index >>= 1; encode<wchar_t>(c); }
	else { c.index >>= 1; encode<char16_t>(c); }
}

template <class From, class To> static void decode(Case& c)
{
	auto& r = c.rng;
	std::basic_string<From> src;
	size_t parts = 1 + r.size(40);
	auto add = [&](const std::string& s) { for (char ch : s) src += static_cast<From>(ch); };
	if (c.index < rows.size()) add(fmt("&%s;", rows[c.index].name));
	for (size_t i = 0; i < parts; i++) {
		switch (r.below(9)) {
		case 0: case 1: add(fmt("&%s;", rows[r.below(rows.size())].name)); break;
		case 2: { // Nearly an entity
			std::string n = rows[r.below(rows.size())].name;
			switch (r.below(5)) {
			case 0: n.pop_back(); break;
			case 1: n += static_cast<char>('a' + r.below(26)); break;
			case 2: n[r.below(n.size())] ^= 0x20; break;
			case 3: n[r.below(n.size())] = static_cast<char>('a' + r.below(26)); break;
			default: n.insert(r.below(n.size() + 1), 1, "& ;\t<"[r.below(5)]); break;
			}
			add("&" + n + ";");
			break;
		}
		case 3: { uint32_t v = r.chance(1, 6) ? r.one<uint32_t>({ 0, 0x110000, 0xffffffff, 0x10ffff, 0xffff, 0x10000 }) : some_char(r); add(fmt(r.coin() ? "&#x%x;" : r.coin() ? "&#X%X;" : "&#%u;", v)); break; }
		case 4: add(r.one({ "&#;", "&;", "&#x;", "&", "&#xg;", "&#99999999999999999999;", "&#x100000000;", "&#4294967361;", "&amp", "&amp ;", "&lt&gt;", "&#65 x;", "&#65\tb;", "&#x41&lt;", "&#66&y;", "&#x\n41;", "&#65 ;", "&#g;", "&#000000065;", "&thisentitynamedoesnotexist;" })); break;
		default: { uint32_t ch = some_char(r); if (sizeof(From) == 1 ? ch >= 0x80 : sizeof(From) != sizeof(To) && ch >= 0x10000) ch = 'n'; put(src, ch); break; }
		}
	}
	std::vector<token_t> t;
	size_t err, err_full;
	std::basic_string<From> scan = src;
	if (!tokenize(src, t, &err, true)) { c.count("unspecified"); return; }
	tokenize(src, t, &err_full, false);
	if (sizeof(From) == sizeof(To)) {} // Unpaired units are copied
	int skip = some_flags(r);
	stdex::mapping<size_t> off(r.below(3) * 1000, r.below(3) * 500);
	std::basic_string<To> pre(r.below(3), To('p')), want = pre;
	std::vector<std::array<size_t, 4>> ents; // from, to in source; from, to in destination
	for (auto& k : t) {
		if (k.entity && !flagged(skip, k.alt[0][0])) {
			size_t a = want.size();
			want += str<To>(k.alt[0]);
			ents.push_back({ k.from, k.to, a, want.size() });
		}
		else for (size_t i = k.from; i < k.to; i++) want += static_cast<To>(src[i]);
	}
	std::basic_string<From> padded = src;
	if (r.chance(1, 6)) { padded += From(0); for (char ch : std::string("&amp;")) padded += From(ch); }
	Exact<From> x(padded);
	auto out = pre;
	stdex::mapping_vector<size_t> map;
	bool with_map = r.coin();
	stdex::sgml2strcat(out, x.data(), padded.size(), skip, off, with_map ? &map : nullptr);
	VH_CHECK(c, out == want, "decode", "%s decoded (%x) as %s, %s expected", show(src).c_str(), skip, show(out).c_str(), show(want).c_str());
	auto check_map = [&](const stdex::mapping_vector<size_t>& map, size_t shift, const char* key) {
		bool ok = map.size() == ents.size() * 2;
		for (size_t i = 0; ok && i < ents.size(); i++)
			ok = map[i * 2].from == off.from + ents[i][0] && map[i * 2].to == off.to + ents[i][2] - shift &&
				map[i * 2 + 1].from == off.from + ents[i][1] && map[i * 2 + 1].to == off.to + ents[i][3] - shift;
		VH_CHECK(c, ok, key, "%s: %zu entities, %zu map entries", show(src).c_str(), ents.size(), map.size());
	};
	if (with_map && !c.failed) check_map(map, 0, "decode-map");
	// Errors
	size_t e1 = stdex::sgmlerr(x.data(), padded.size()), e2 = stdex::sgmlerr(x.data(), padded.size(), stdex::sgml_full);
	VH_CHECK(c, e1 == err, "sgmlerr", "%s: error at %zd, %zd expected", show(src).c_str(), static_cast<ssize_t>(e1), static_cast<ssize_t>(err));
	VH_CHECK(c, e2 == err_full, "sgmlerr-full", "%s: error at %zd, %zd expected", show(src).c_str(), static_cast<ssize_t>(e2), static_cast<ssize_t>(err_full));
	if (c.failed) return;
	std::basic_string<To> body = want.substr(pre.size());
	VH_CHECK(c, (stdex::sgml2str<To>(src, skip)) == body, "decode-overload", "%s", show(src).c_str());
	{
		std::basic_string<To> cpy(3, To('o'));
		stdex::mapping_vector<size_t> m2{ { 1, 2 } };
		stdex::sgml2strcpy(cpy, src, skip, off, &m2);
		VH_CHECK(c, cpy == body, "decode-overload", "%s", show(src).c_str());
		check_map(m2, pre.size(), "decode-map");
	}
	// Caller's buffer
	for (int i = 0; i < 3; i++) {
		bool cat = r.coin();
		std::basic_string<To> p = cat ? std::basic_string<To>(r.below(6), To('p')) : std::basic_string<To>();
		size_t need = p.size() + body.size() + 1;
		size_t size = r.chance(1, 3) ? need : r.chance(1, 2) ? need - std::min<size_t>(need, 1 + r.below(4)) : r.chance(1, 2) ? need + r.below(5) : r.below(need + 1);
		if (size < p.size() + 1) p.clear(), cat = false, need = body.size() + 1;
		std::vector<To> init(size, To('#'));
		if (cat) { std::copy(p.begin(), p.end(), init.begin()); init[p.size()] = 0; }
		Exact<To> dst(init);
		bool threw = false;
		size_t len = 0;
		stdex::mapping_vector<size_t> m2;
		try { len = cat ? stdex::sgml2strcat(dst.data(), size, x.data(), padded.size(), skip, off, &m2) : stdex::sgml2strcpy(dst.data(), size, x.data(), padded.size(), skip, off, &m2); }
		catch (const std::invalid_argument&) { threw = true; }
		VH_CHECK(c, threw == (size < need), "decode-buffer-report", "%s into %zu of %zu characters: %s", show(src).c_str(), size, need, threw ? "refused" : "accepted");
		if (!threw && size >= need) {
			VH_CHECK(c, len == need - 1 && std::basic_string<To>(dst.data(), len) == p + body && !dst.data()[len], "decode-buffer", "%s into %zu characters", show(src).c_str(), size);
			check_map(m2, pre.size() - p.size(), "decode-buffer-map");
		}
	}
	if (!ents.empty()) c.sig(hash_bytes(src.data(), src.size() * sizeof(From), skip));
}
VH_GROUP(decode, 16000, 500000, 8000)
{
	unsigned k = c.index % 5;
	c.index /= 5;
	switch (k) {
	case 0: decode<char, wchar_t>(c); break;
	case 1: decode<char, char16_t>(c); break;
	case 2: decode<wchar_t, wchar_t>(c); break;
	case 3: decode<char16_t, char16_t>(c); break;
	default: decode<wchar_t, char16_t>(c); break;
	}
}

VH_MAIN
