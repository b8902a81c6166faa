// X03: locale objects against the C library; system information against what the system calls said.
#include "vh.hpp"
#include <clocale>
#include <cwchar>
#include <langinfo.h>
#include <stdex/compat.hpp>
#include <stdex/locale.hpp>
#include <stdex/string.hpp>
#include <stdex/sys_info.hpp>

using namespace vh;

// Stand-ins for the system calls the system information comes from
static bool sys_fake = false, sys_fail = false, sys_nouser = false;
static std::string sys_machine, sys_user;
static uid_t sys_euid = 0;
static uint64_t sys_calls = 0;
extern "C" int uname(struct utsname* u)
{
	if (!sys_fake) { memset(u, 0, sizeof(*u)); return 0; }
	sys_calls++;
	if (sys_fail) { memset(u, 'x', sizeof(*u)); errno = EFAULT; return -1; }
	memset(u, 0, sizeof(*u));
	strncpy(u->machine, sys_machine.c_str(), sizeof(u->machine) - 1);
	strcpy(u->sysname, "x86_64"), strcpy(u->nodename, "aarch64"), strcpy(u->release, "arm"), strcpy(u->version, "i386");
	return 0;
}
extern "C" uid_t geteuid() { return sys_fake ? sys_euid : 0; }
extern "C" struct passwd* getpwuid(uid_t id)
{
	static struct passwd pw;
	static std::string name; // As the system: one buffer, overwritten by each call
	if (!sys_fake || sys_nouser) return nullptr;
	memset(&pw, 0, sizeof(pw));
	name = id == sys_euid ? sys_user : "somebody else";
	pw.pw_uid = id;
	pw.pw_name = &name[0];
	return &pw;
}

static const struct { int cat, mask; std::vector<nl_item> items; const char* name; } cats[] = {
	{ LC_CTYPE, LC_CTYPE_MASK, { CODESET }, "ctype" },
	{ LC_NUMERIC, LC_NUMERIC_MASK, { RADIXCHAR, THOUSEP }, "numeric" },
	{ LC_TIME, LC_TIME_MASK, { DAY_1, MON_5, D_FMT, T_FMT }, "time" },
	{ LC_MONETARY, LC_MONETARY_MASK, { CRNCYSTR }, "monetary" },
	{ LC_MESSAGES, LC_MESSAGES_MASK, { YESEXPR, NOEXPR }, "messages" },
	{ LC_COLLATE, LC_COLLATE_MASK, {}, "collate" },
};
static const char* const names[] = { "C", "POSIX", "C.UTF-8", "de_DE.UTF-8", "de_DE", "sl_SI.UTF-8", "sl_SI", "tr_TR.UTF-8", "ru_RU.KOI8-R", "ru_RU", "ja_JP.EUC-JP", "fr_FR.UTF-8", "pl_PL.UTF-8", "el_GR.UTF-8", "ar_EG.UTF-8", "nonexistent", "xx_YY.UTF-8" };
static std::vector<std::string> facts(size_t cat, locale_t l)
{
	std::vector<std::string> v;
	for (auto i : cats[cat].items) v.push_back(nl_langinfo_l(i, l));
	if (cats[cat].cat == LC_COLLATE) for (auto p : { "aB", "Ab", "a-b", "ab" }) for (auto q : { "aC", "AB", "a b", "b" }) v.push_back(strcoll_l(p, q, l) < 0 ? "<" : ">");
	if (cats[cat].cat == LC_CTYPE) {
		std::string s;
		for (int ch = 0; ch < 256; ch++) s += static_cast<char>('0' + !!isalpha_l(ch, l) + 2 * !!isspace_l(ch, l) + 4 * !!isupper_l(ch, l)), s += static_cast<char>(tolower_l(ch, l));
		v.push_back(s);
	}
	return v;
}
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += show(x.substr(0, 20)) + " "; return s; }

VH_GROUP(locale, 4000, 60000, 100)
{
	auto& r = c.rng;
	// The process has a locale of its own, not the same in every category
	std::string was = setlocale(LC_ALL, nullptr);
	uint64_t sg = 1;
	for (auto& k : cats) {
		auto n = names[r.below(std::size(names))];
		if (setlocale(k.cat, n)) sg = mix(sg ^ hash_bytes(n, strlen(n)));
	}
	std::string global = setlocale(LC_ALL, nullptr);
	locale_t now = ::duplocale(LC_GLOBAL_LOCALE);
	std::vector<std::unique_ptr<stdex::locale>> held;
	std::vector<std::pair<const char*, int>> what;
	for (int k = 1 + static_cast<int>(r.below(5)); k--;) {
		auto n = names[r.below(std::size(names))];
		size_t cat = r.below(std::size(cats) + 1);
		bool all = cat == std::size(cats);
		sg = mix(sg ^ hash_bytes(n, strlen(n), cat));
		locale_t ref = ::newlocale(LC_ALL_MASK, n, locale_t(0));
		held.emplace_back(new stdex::locale(all ? LC_ALL : cats[cat].cat, n));
		what.push_back({ n, all ? -1 : static_cast<int>(cat) });
		auto& l = *held.back();
		const char* cn = all ? "all" : cats[cat].name;
		VH_CHECK(c, !!l.get() == !!ref, "create", "%s of %s: %s", cn, n, l ? "created" : "not created");
		VH_CHECK(c, static_cast<locale_t>(l) == l.get(), "convert", "%s of %s", cn, n);
		if (ref) ::freelocale(ref);
		else c.count("unknown");
		if (r.chance(1, 4)) {
			// Moved and replaced
			stdex::locale m(std::move(l));
			VH_CHECK(c, !l && !!m == !!ref, "move", "%s of %s", cn, n);
			if (r.coin()) m = stdex::locale(LC_TIME, "de_DE.UTF-8");
			l = std::move(m);
			if (r.chance(1, 3)) l.reset();
			held.pop_back(), what.pop_back();
		}
	}
	for (size_t i = 0; i < held.size(); i++) {
		if (!*held[i]) continue;
		locale_t ref = ::newlocale(LC_ALL_MASK, what[i].first, locale_t(0));
		for (size_t k = 0; k < std::size(cats); k++) {
			bool own = what[i].second == -1 || what[i].second == static_cast<int>(k);
			auto got = facts(k, *held[i]), want = facts(k, own ? ref : now);
			VH_CHECK(c, got == want, own ? "category" : "other-category", "%s of a locale with %s of %s in %s: %s, %s expected", cats[k].name, what[i].second == -1 ? "all" : cats[what[i].second].name, what[i].first, global.c_str(), join(got).c_str(), join(want).c_str());
			c.count(own ? "own" : "others");
		}
		// In use
		auto got = stdex::sprintf("%.2f", static_cast<locale_t>(*held[i]), 1234.5);
		std::string want = std::string("1234") + nl_langinfo_l(RADIXCHAR, what[i].second == -1 || cats[what[i].second].cat == LC_NUMERIC ? ref : now) + "50";
		VH_CHECK(c, got == want, "format", "%s, %s expected", show(got).c_str(), show(want).c_str());
		::freelocale(ref);
	}
	// Ready-made ones do not depend on the locale of the process
	static locale_t cloc = ::newlocale(LC_ALL_MASK, "C", locale_t(0)), uloc = ::newlocale(LC_ALL_MASK, "C.UTF-8", locale_t(0));
	VH_CHECK(c, stdex::locale_C, "locale-c", "there is none");
	for (size_t k = 0; k < std::size(cats); k++)
		VH_CHECK(c, facts(k, stdex::locale_C) == facts(k, cloc), "locale-c", "%s of locale_C: %s", cats[k].name, join(facts(k, stdex::locale_C)).c_str());
	VH_CHECK(c, stdex::locale_utf8, "locale-utf8", "there is none");
	VH_CHECK(c, facts(0, stdex::locale_utf8)[0] == "UTF-8", "locale-utf8", "locale_utf8 has %s", join(facts(0, stdex::locale_utf8)).c_str());
	{
		std::wstring w;
		for (size_t n = r.below(6); n--;) w += static_cast<wchar_t>(r.coin() ? 1 + r.below(0xd7ff) : 0x10000 + r.below(0x100000));
		auto got = stdex::sprintf("%ls", static_cast<locale_t>(stdex::locale_utf8), w.c_str());
		locale_t old = uselocale(uloc);
		char buf[100];
		auto n = ::snprintf(buf, sizeof(buf), "%ls", w.c_str());
		uselocale(old);
		VH_CHECK(c, n >= 0 && got == buf, "locale-utf8-text", "%s gives %s", show(w).c_str(), show(got).c_str());
	}
	VH_CHECK(c, !stdex::locale_default, "locale-default", "locale_default is not the one of the process");
	// Destroyed in any order; the process keeps its own
	while (!held.empty()) held.erase(held.begin() + static_cast<ssize_t>(r.below(held.size())));
	VH_CHECK(c, global == setlocale(LC_ALL, nullptr), "process-locale", "%s before, %s now", global.c_str(), setlocale(LC_ALL, nullptr));
	for (size_t k = 0; k < std::size(cats); k++)
		VH_CHECK(c, facts(k, now) == [&] { locale_t g = ::duplocale(LC_GLOBAL_LOCALE); auto f = facts(k, g); ::freelocale(g); return f; }(), "process-locale", "%s of the process changed", cats[k].name);
	::freelocale(now);
	setlocale(LC_ALL, was.c_str());
	c.sig(sg);
}

VH_GROUP(system, 4000, 60000, 50)
{
	auto& r = c.rng;
	static const struct { const char* name; stdex::platform_id id; } known[] = {
		{ "aarch64", stdex::platform_id::aarch64 }, { "arm", stdex::platform_id::arm }, { "i386", stdex::platform_id::i386 }, { "x86_64", stdex::platform_id::x86_64 } };
	std::string m = r.chance(2, 3) ? known[r.below(4)].name : r.one<std::string>({ "", "armv7l", "x86", "i686", "aarch64_be", "riscv64", "x86-64", "ar", "mips", "zzz", "AAA" });
	if (r.chance(1, 4) && !m.empty()) { size_t i = r.below(m.size()); if (r.coin()) m.erase(i, 1); else m.insert(i, 1, static_cast<char>(' ' + r.below(90))); }
	if (r.coin()) for (auto& ch : m) if (r.coin()) ch = static_cast<char>(::toupper(ch));
	auto want = stdex::platform_id::unknown;
	for (auto& k : known) if (m.size() == strlen(k.name) && !strcasecmp(m.c_str(), k.name)) want = k.id;
	Exact<char> z(m + '\0');
	VH_CHECK(c, stdex::platform_from_name(z.data()) == want, "platform", "%s is %x", show(m).c_str(), static_cast<unsigned>(stdex::platform_from_name(z.data())));
	sys_fake = true;
	sys_fail = r.chance(1, 5);
	sys_nouser = r.chance(1, 5);
	sys_machine = m;
	sys_user = std::string(r.below(40), 'u') + std::to_string(r.below(100));
	sys_euid = r.coin() ? 0 : static_cast<uid_t>(r.below(70000));
	{
		stdex::sys_info_t s;
		sys_user[0] = '!'; // The system's buffers are used again
		auto user = std::string(getpwuid(0) ? "" : "");
		VH_CHECK(c, s.os_platform == (sys_fail ? stdex::platform_id::unknown : want), "os-platform", "%s is %x", show(m).c_str(), static_cast<unsigned>(s.os_platform));
		VH_CHECK(c, s.elevated == (sys_euid == 0), "elevated", "user %u", static_cast<unsigned>(sys_euid));
		auto u = sys_user; u[0] = s.username.empty() ? '!' : s.username[0];
		VH_CHECK(c, sys_nouser ? s.username.empty() : s.username.size() == u.size() && s.username == u.c_str() && (s.username[0] == 'u' || isdigit(s.username[0])), "username", "%s", show(std::string(s.username)).c_str());
	}
	VH_CHECK(c, sys_calls > 0, "asked", "the system was not asked");
	sys_calls = 0;
	sys_fake = false;
	c.sig(hash_bytes(m.data(), m.size(), sys_fail * 2 + sys_nouser));
}

VH_MAIN
