// A parser run on a text in some encoding, and what is expected of it.
#pragma once
#include "kits.hpp"

using namespace vh;
using namespace kit;

// Reader over characters
struct In
{
	const std::wstring& s;
	wchar_t at(size_t i) const { return i < s.size() ? s[i] : 0; }
	bool is(size_t i, const wchar_t* set) const { auto ch = at(i); return ch && wcschr(set, ch); }
	bool dig(size_t i) const { auto ch = at(i); return L'0' <= ch && ch <= L'9'; }
	size_t digs(size_t i) const { while (dig(i)) i++; return i; }
	size_t blanks(size_t i) const { while (at(i) == L' ' || at(i) == L'\t') i++; return i; }
};

struct Piece // [from, to) in characters, or absent
{
	bool on = false;
	size_t from = 0, to = 0;
	Piece() {}
	Piece(size_t f, size_t t) : on(true), from(f), to(t) {}
};

// What the parser of a case is used on before it is judged: text made for another case
struct Ghost {};
template <class T> struct Past
{
	std::basic_string<T> s;
	size_t at;
	int flags;
	static std::vector<Past>& all() { static std::vector<Past> v; return v; }
};
static void prelude(Case& c, void (*fn)(Case&))
{
	Past<char>::all().clear();
	Past<wchar_t>::all().clear();
	for (uint64_t seed = c.rng.next(), n = seed % 3; n; n--) {
		Case g(c.index, mix(seed + n));
		g.ghost = true;
		try { fn(g); }
		catch (const Ghost&) {}
	}
}
static const bool prelude_set = [] { st().prelude = prelude; return true; }();

// Text given to a parser: characters before, what is tested, and where it starts
template <class F>
struct Probe
{
	Case& c;
	const std::wstring& w;
	size_t start;
	Text<typename F::T> t;
	Exact<typename F::T> x;
	size_t end; // As told to the parser
	int flags;
	bool ok = false;

	// The text may be terminated, with more beyond the terminator, and its end told to be farther away or not at all.
	static std::basic_string<typename F::T> closed(Rng& r, std::basic_string<typename F::T> s, size_t& end)
	{
		using T = typename F::T;
		end = s.size();
		if (!r.chance(1, 5)) return s;
		size_t n = s.size();
		s += T(0);
		end = SIZE_MAX;
		if (r.coin()) {
			s += r.coin() ? s.substr(0, 1 + r.below(n + 1)) : std::basic_string<T>(1, static_cast<T>("0;/>\" \n=)a"[r.below(11)]));
			if (r.coin()) end = s.size();
		}
		else if (r.coin()) end = s.size();
		return s;
	}

	Probe(Case& _c, const std::wstring& _w, size_t _start, Text<typename F::T>&& _t) : c(_c), w(_w), start(_start), t(std::move(_t)), x(closed(_c.rng, t.s, end)), flags(static_cast<int>(_c.rng.below(4))) {}

	template <class X> bool run(X& p)
	{
		using T = typename F::T;
		if (c.ghost) {
			Past<T>::all().push_back({ t.s, t.pos[start], flags });
			throw Ghost();
		}
		for (auto& o : Past<T>::all()) {
			Exact<T> b(o.s);
			p.match(b.data(), o.at, o.s.size(), o.flags);
			c.count("used before");
		}
		ok = p.match(x.data(), t.pos[start], end, flags);
		return ok;
	}
	std::string where() const { return fmt("%s %s at %zu", F::name, show(t.s).c_str(), t.pos[start]); }
	bool same(const stdex::interval<size_t>& i, const Piece& p) const
	{
		if (!p.on) return !i;
		return i && i.start == t.pos[p.from] && i.end == t.pos[p.to];
	}
	std::string want(const Piece& p) const { return p.on ? fmt("[%zu,%zu)", t.pos[p.from], t.pos[p.to]) : std::string("-"); }
	void expect(const char* key, const char* what, const stdex::interval<size_t>& i, const Piece& p)
	{
		VH_CHECK(c, same(i, p), key, "%s: %s is %s, must be %s", where().c_str(), what, iv(i).c_str(), want(p).c_str());
	}
	template <class X> void part(const char* key, const char* what, const X& q, const Piece& p)
	{
		if (q) expect(key, what, q->interval, p);
	}
	// Does it match what it must?
	bool whole(const char* key, const Piece& p, const stdex::interval<size_t>& i)
	{
		expect(key, "the match", i, ok ? p : Piece());
		VH_CHECK(c, ok == p.on, key, "%s: match is %d, must be %d", where().c_str(), ok, p.on);
		if (p.on) { c.count("matches"); c.sig(hash_bytes(w.data() + p.from, (p.to - p.from) * sizeof(wchar_t), hash_str(key) + (p.to < w.size() ? static_cast<uint64_t>(w[p.to]) : 0))); }
		else c.count("non-matches");
		if (c.index < 2) c.sample(std::string(key) + " " + where() + " " + want(p));
		return ok && p.on && !c.failed;
	}
	void value(const char* key, size_t v, size_t must)
	{
		VH_CHECK(c, v == must, key, "%s: value is %zu, must be %zu", where().c_str(), v, must);
	}
};

using Words = std::vector<std::wstring>;

// Text with a number somewhere, near misses and other text
static std::wstring mess(Rng& r, std::wstring good, const Words& tokens, size_t& start)
{
	std::wstring s;
	if (r.chance(1, 5)) good = soup(r, tokens, 7, 14);
	else if (r.chance(1, 3) && !good.empty()) {
		size_t i = static_cast<size_t>(r.below(good.size() + 1));
		switch (r.below(4)) {
		case 0: if (i < good.size()) good.erase(i, 1); break;
		case 1: good.insert(i, r.pick(tokens)); break;
		case 2: if (i < good.size()) good[i] = r.pick(tokens)[0]; break;
		default: good.resize(i);
		}
	}
	if (r.chance(1, 3)) s = soup(r, tokens, 3, 6);
	start = s.size();
	s += good;
	switch (r.below(4)) {
	case 0: s += soup(r, tokens, 3, 6); break;
	case 1: s += r.pick(tokens); break;
	case 2: s += static_cast<wchar_t>(r.range(0x20, 0x7e)); break;
	}
	return s;
}

// SGML text where digits are not written as entities
template <class F> static Text<typename F::T> plain(const std::wstring& w, Rng& r)
{
	if constexpr (!F::sgml) return F::enc(w, r);
	else {
		Text<char> t;
		for (auto ch : w) {
			t.pos.push_back(t.s.size());
			if (ch >= L'0' && ch <= L'9') t.s += static_cast<char>(ch);
			else t.s += F::enc(std::wstring(1, ch), r).s;
		}
		t.pos.push_back(t.s.size());
		return t;
	}
}
template <class Fn> static void each(Case& c, Fn fn)
{
	switch (c.index % 3) {
	case 0: fn(Char()); break;
	case 1: fn(Wide()); break;
	default: fn(Sgml());
	}
}
