// I01: language tags and identifiers against a snapshot of the tables searched linearly.
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/langid.hpp>

using namespace vh;

#include "langid_table.inc"

constexpr size_t tags_n = sizeof(tag_table) / sizeof(tag_table[0]), ids_n = sizeof(id_table) / sizeof(id_table[0]);

static bool punct(char ch) { return ch && strchr("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", ch); }
static std::string norm(std::string s)
{
	for (auto& ch : s) ch = punct(ch) ? '-' : ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch | 0x20) : ch;
	return s;
}
// All identifiers listed for the tag
static const std::set<unsigned>* ids(const std::string& tag)
{
	static std::map<std::string, std::set<unsigned>> m;
	if (m.empty()) for (auto& e : tag_table) m[norm(e.tag)].insert(e.id);
	auto i = m.find(norm(tag));
	return i == m.end() ? nullptr : &i->second;
}
static unsigned from(const std::string& s)
{
	Exact<char> x(s.c_str(), s.size() + 1);
	return stdex::langid_from_rfc1766(x.data());
}

VH_GROUP(tags, 60000, 600000, 2000)
{
	auto& r = c.rng;
	std::string t = tag_table[c.index % tags_n].tag;
	if (c.index >= 2 * tags_n) {
		for (size_t k = r.below(3); k; --k) {
			size_t i = r.below(t.size() + 1);
			switch (r.below(6)) {
			case 0: t.resize(i); break;
			case 1: t.insert(i, 1, "-_ aA.z0\xc3"[r.below(9)]); break;
			case 2: if (i < t.size()) t.erase(i, 1); break;
			case 3: if (i < t.size()) t[i] = static_cast<char>(1 + r.below(255)); break;
			case 4: t += r.one({ "-", "_", "-x", "-Latn", "-US", "_ploc", " " }); break;
			default: std::reverse(t.begin(), t.end());
			}
			if (t.empty()) break;
		}
		for (auto& ch : t) {
			if (punct(ch) && r.chance(1, 4)) ch = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"[r.below(32)];
			else if (((ch | 0x20) >= 'a' && (ch | 0x20) <= 'z') && r.chance(1, 3)) ch ^= 0x20;
		}
		if (r.chance(1, 200)) t.clear();
	}
	t = t.c_str();
	auto want = ids(t);
	unsigned got = from(t);
	if (want) {
		VH_CHECK(c, want->count(got), "tag-id", "%s gives %x", show(t).c_str(), got);
		Exact<char> x(t.c_str(), t.size() + 1);
		auto back = stdex::rfc1766_from_langid(static_cast<stdex::langid>(got));
		VH_CHECK(c, back && norm(back) == norm(t), "tag-id-tag", "%s gives %x, which gives %s", show(t).c_str(), got, back ? back : "(null)");
		c.count("listed");
	}
	else {
		VH_CHECK(c, got == stdex::langid_unknown, "unlisted-tag", "%s gives %x", show(t).c_str(), got);
		c.count("unlisted");
	}
	VH_CHECK(c, from(t) == got, "tag-unstable", "%s", show(t).c_str());
	c.sig(norm(t) + t);
}
VH_GROUP(ids, 66, 66, 60)
{
	static const std::map<unsigned, const char*> m = [] { std::map<unsigned, const char*> m; for (auto& e : id_table) m[e.id] = e.tag; return m; }();
	for (unsigned l = 0; l < 1000; l++) {
		unsigned id = static_cast<unsigned>(c.index) * 1000 + l;
		if (id > 0xffff) break;
		auto w = m.find(id);
		auto lang = static_cast<stdex::langid>(id);
		auto got = stdex::rfc1766_from_langid(lang);
		auto fb = stdex::rfc1766_from_langid(lang, "xx");
		if (w == m.end()) VH_CHECK(c, !got && fb && !strcmp(fb, "xx"), "id-fallback", "%x gives %s", id, got ? got : "(null)");
		else {
			VH_CHECK(c, got && norm(got) == norm(w->second) && fb && !strcmp(fb, got), "id-tag", "%x gives %s, %s expected", id, got ? got : "(null)", w->second);
			if (got) {
				auto back = from(got);
				VH_CHECK(c, back != stdex::langid_unknown && ids(got), "id-tag-id", "%x gives %s, which gives %x", id, got, back);
				if (id != 0x8c) // Listed as "fa", which is another language
					VH_CHECK(c, stdex::primary_langid(static_cast<stdex::langid>(back)) == stdex::primary_langid(lang), "id-tag-primary", "%x gives %s, which gives %x", id, got, back);
			}
		}
		VH_CHECK(c, stdex::primary_langid(lang) == (id & 0x3ff) && stdex::sub_langid(lang) == (id & 0xfc00) && (stdex::primary_langid(lang) | stdex::sub_langid(lang)) == id, "parts", "%x", id);
	}
	c.sig(c.index);
}
VH_MAIN
