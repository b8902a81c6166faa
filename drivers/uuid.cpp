// I02: UUIDs to text and back.
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/uuid.hpp>

using namespace vh;

struct alignas(8) Id { uuid_t id; };

// The library keeps the first three fields in native byte order
static std::string text(const Id& u, bool upper)
{
	auto* b = u.id;
	uint32_t d1; uint16_t d2, d3;
	memcpy(&d1, b, 4); memcpy(&d2, b + 4, 2); memcpy(&d3, b + 6, 2);
	const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
	std::string s = "{";
	auto hex = [&](uint64_t v, int n) { while (n--) s += d[(v >> (4 * n)) & 15]; };
	hex(d1, 8); s += '-'; hex(d2, 4); s += '-'; hex(d3, 4); s += '-'; hex(b[8], 2); hex(b[9], 2); s += '-';
	for (int i = 10; i < 16; i++) hex(b[i], 2);
	return s + '}';
}
static Id random_id(Rng& r)
{
	Id u;
	for (auto& b : u.id) b = static_cast<uint8_t>(r.chance(1, 4) ? r.one<int>({ 0, 0xff, 0x80, 0x7f, 1, 0x10 }) : r.next());
	if (r.chance(1, 16)) memset(u.id, r.coin() ? 0 : 0xff, 16);
	return u;
}
template <class T> static std::basic_string<T> wide(const std::string& s) { return std::basic_string<T>(s.begin(), s.end()); }

// Range given as exactly the text, or terminated inside a longer one
template <class T> static bool parse(Rng& r, const std::basic_string<T>& s, Id& u)
{
	memset(u.id, 0xa5, 16);
	switch (r.below(3)) {
	case 0: { Exact<T> x(s); return stdex::strtouuid(x.data(), s.size(), u.id); }
	case 1: { Exact<T> x(s.c_str(), s.size() + 1); return stdex::strtouuid(x.data(), r.coin() ? SIZE_MAX : s.size() + r.below(50), u.id); }
	default: { // Followed by whatever, out of range
		auto p = s + T("0-}{ a\t"[r.below(7)]);
		Exact<T> x(p);
		return stdex::strtouuid(x.data(), s.size(), u.id);
	}
	}
}

VH_GROUP(round, 60000, 600000, 5000)
{
	auto& r = c.rng;
	auto u = random_id(r);
	auto want = text(u, true);
	std::vector<char> n(stdex::uuid_str_max);
	stdex::uuidtostr(n.data(), u.id);
	VH_CHECK(c, want == n.data(), "write", "%s, %s expected", n.data(), want.c_str());
	std::vector<wchar_t> w(stdex::uuid_str_max);
	stdex::uuidtostr(w.data(), u.id);
	VH_CHECK(c, wide<wchar_t>(want) == w.data(), "write-wide", "%s, %s expected", show(w.data(), wcslen(w.data())).c_str(), want.c_str());
	auto s = text(u, r.coin());
	if (r.coin()) for (auto& ch : s) if (((ch | 0x20) >= 'a' && (ch | 0x20) <= 'f') && r.coin()) ch ^= 0x20;
	if (r.coin()) { // White space is allowed around the fields
		std::string t;
		for (size_t i = 0; i <= s.size(); i++) {
			bool edge = i == s.size() || strchr("{-}", s[i]) || (i && strchr("{-}", s[i - 1]));
			if (edge) for (size_t k = r.chance(1, 3) ? r.below(4) : 0; k; --k) t += " \t\r\n\v\f"[r.below(6)];
			if (i < s.size()) t += s[i];
		}
		s = t;
	}
	Id v;
	bool ok = parse<char>(r, s, v);
	VH_CHECK(c, ok && !memcmp(u.id, v.id, 16), "read", "%s %s", show(s).c_str(), ok ? text(v, true).c_str() : "rejected");
	ok = parse<wchar_t>(r, wide<wchar_t>(s), v);
	VH_CHECK(c, ok && !memcmp(u.id, v.id, 16), "read-wide", "%s %s", show(s).c_str(), ok ? text(v, true).c_str() : "rejected");
	ok = parse<char16_t>(r, wide<char16_t>(s), v);
	VH_CHECK(c, ok && !memcmp(u.id, v.id, 16), "read-utf16", "%s %s", show(s).c_str(), ok ? text(v, true).c_str() : "rejected");
	c.sig(s);
}

// 1: is a UUID, 0: is not, -1: fields are short, padded or prefixed - not specified
static int judge(const std::string& s, Id& u)
{
	static const char* ws = " \t\r\n\v\f";
	size_t i = 0;
	int rv = 1;
	auto skip = [&] { while (i < s.size() && strchr(ws, s[i])) i++; };
	auto lit = [&](char ch) { skip(); return i < s.size() && s[i] == ch ? i++, true : false; };
	static const int width[] = { 8, 4, 4, 4, 12 };
	uint64_t v[5];
	if (!lit('{')) return 0;
	for (int f = 0; f < 5; f++) {
		if (f && !lit('-')) return 0;
		skip();
		size_t j = i;
		if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] | 0x20) == 'x') i += 2, rv = -1;
		std::string d;
		for (; i < s.size() && strchr("0123456789abcdefABCDEF", s[i]); i++) d += s[i];
		if (i == j) return 0;
		if (d.size() != static_cast<size_t>(width[f])) rv = -1;
		size_t z = d.find_first_not_of('0');
		if (z != std::string::npos && d.size() - z > static_cast<size_t>(width[f])) return 0;
		v[f] = d.empty() ? 0 : strtoull(d.c_str(), nullptr, 16);
	}
	if (!lit('}')) return 0;
	skip();
	if (i < s.size()) return 0;
	uint32_t d1 = static_cast<uint32_t>(v[0]); uint16_t d2 = static_cast<uint16_t>(v[1]), d3 = static_cast<uint16_t>(v[2]);
	memcpy(u.id, &d1, 4); memcpy(u.id + 4, &d2, 2); memcpy(u.id + 6, &d3, 2);
	u.id[8] = static_cast<uint8_t>(v[3] >> 8), u.id[9] = static_cast<uint8_t>(v[3]);
	for (int k = 0; k < 6; k++) u.id[10 + k] = static_cast<uint8_t>(v[4] >> (8 * (5 - k)));
	return rv;
}
VH_GROUP(near, 200000, 2000000, 10000)
{
	auto& r = c.rng;
	auto s = text(random_id(r), r.coin());
	for (size_t k = 1 + r.below(2); k; --k) {
		size_t i = r.below(s.size() + 1);
		if (r.coin()) { // Field edges
			std::vector<size_t> e;
			for (size_t j = 0; j < s.size(); j++) if (strchr("{-}", s[j])) e.push_back(j), e.push_back(j + 1);
			if (!e.empty()) i = r.pick(e);
		}
		switch (r.below(8)) {
		case 0: s.resize(i); break;
		case 1: s.insert(i, 1, "-+{}x0fgG_ \t.,1"[r.below(15)]); break;
		case 2: if (i < s.size()) s.erase(i, 1 + r.below(3)); break;
		case 3: if (i < s.size()) { char ch = static_cast<char>(1 + r.below(255)); s[i] = ch; } break;
		case 4: if (i < s.size()) s[i] = "-+{}0fFgGxX 9"[r.below(13)]; break;
		case 5: { size_t n = r.below(14); if (i < s.size()) s.erase(i, n); } break; // Empties a field
		case 6: s.insert(i, r.one({ "0x", "-0", "+0", "--", "00000000000000000", "ffffffffffffffff", "}}", " - " })); break;
		default: if (s.size() > 2) std::swap(s[i % s.size()], s[r.below(s.size())]);
		}
		if (s.empty()) break;
	}
	s = s.c_str();
	Id u, v;
	int want = judge(s, u);
	bool got = parse<char>(r, s, v);
	if (want >= 0) {
		VH_CHECK(c, got == (want == 1), "accept", "%s %s", show(s).c_str(), got ? "accepted" : "rejected");
		if (got && want == 1) VH_CHECK(c, !memcmp(u.id, v.id, 16), "value", "%s read as %s", show(s).c_str(), text(v, true).c_str());
		c.count(want ? "uuid" : "not_uuid");
	}
	else {
		if (got) VH_CHECK(c, !memcmp(u.id, v.id, 16), "value-lenient", "%s read as %s", show(s).c_str(), text(v, true).c_str());
		c.count("unspecified");
	}
	bool ascii = true;
	for (auto ch : s) if (ch & 0x80) ascii = false;
	if (ascii) {
		Id w;
		bool got2 = parse<wchar_t>(r, wide<wchar_t>(s), w);
		VH_CHECK(c, got == got2 && (!got || !memcmp(v.id, w.id, 16)), "wide-narrow", "%s", show(s).c_str());
	}
	c.sig(s);
}
VH_MAIN
