// I03: clocks and calendar against the C library's calendar (64-bit time_t, proleptic Gregorian).
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/chrono.hpp>
#include <time.h>

using namespace vh;
using date = stdex::chrono::aosn_date;
using stamp = stdex::chrono::aosn_timestamp;

constexpr int64_t unix_jdn = 2440588;
constexpr int64_t day_ms = 86400000;

static date::time_point D(int64_t n) { return date::time_point(date::duration(static_cast<int32_t>(n))); }
static stamp::time_point S(int64_t n) { return stamp::time_point(stamp::duration(n)); }
static int64_t fdiv(int64_t a, int64_t b) { return a / b - (a % b < 0); }

static int64_t random_day(Rng& r)
{
	switch (r.below(8)) {
	case 0: return r.range(-2147483000, 2147483647);                      // Anything but the first year, whose beginning is not representable
	case 1: return r.range(-30000000, 30000000);
	case 2: return r.range(1721050, 1721500);                                // Around year 0
	case 3: return r.range(-800, 800);                                       // Around the clock's epoch
	case 4: return r.range(unix_jdn - 800, unix_jdn + 800);
	case 5: { // Around March 1st of a year
		tm t{}; t.tm_year = static_cast<int>(r.range(-10000, 10000) * (r.coin() ? 100 : 1)) - 1900; t.tm_mon = 2; t.tm_mday = 1;
		int64_t n = fdiv(timegm(&t), 86400) + unix_jdn + r.range(-3, 2);
		return std::min<int64_t>(std::max<int64_t>(n, -2147483000), INT32_MAX);
	}
	default: return r.range(1721426, 3182030); // Years 1..3999
	}
}
static tm civil(int64_t jdn, int64_t sec)
{
	time_t t = (jdn - unix_jdn) * 86400 + sec;
	tm o{};
	if (!gmtime_r(&t, &o)) abort();
	return o;
}

VH_GROUP(date, 200000, 3000000, 50000)
{
	auto& r = c.rng;
	int64_t n = random_day(r);
	auto want = civil(n, 0);
	int64_t wy = static_cast<int64_t>(want.tm_year) + 1900;
	uint8_t d = 99, m = 99;
	int32_t y = 99;
	date::to_dmy(D(n), &d, &m, &y);
	VH_CHECK(c, d == want.tm_mday && m == want.tm_mon + 1 && y == wy, "date-to-dmy", "day %lld gives %d-%d-%d, %lld-%d-%d expected", (long long)n, y, m, d, (long long)wy, want.tm_mon + 1, want.tm_mday);
	{
		uint8_t d2 = 99, m2 = 99; int32_t y2 = 99;
		switch (r.below(3)) {
		case 0: date::to_dmy(D(n), nullptr, &m2, nullptr); VH_CHECK(c, m2 == m, "date-part", "month"); break;
		case 1: date::to_dmy(D(n), &d2, nullptr, nullptr); VH_CHECK(c, d2 == d, "date-part", "day"); break;
		default: date::to_dmy(D(n), nullptr, nullptr, &y2); VH_CHECK(c, y2 == y, "date-part", "year");
		}
	}
	auto back = date::from_dmy(static_cast<uint8_t>(want.tm_mday), static_cast<uint8_t>(want.tm_mon + 1), static_cast<int32_t>(wy));
	VH_CHECK(c, back == D(n), "date-from-dmy", "%lld-%d-%d gives %d, %lld expected", (long long)wy, want.tm_mon + 1, want.tm_mday, back.time_since_epoch().count(), (long long)n);
	int wd = (want.tm_wday + 6) % 7;
	VH_CHECK(c, date::day_of_week(D(n)) == wd, "day-of-week", "day %lld gives %d, %d expected", (long long)n, date::day_of_week(D(n)), wd);
	VH_CHECK(c, date::day_of_week(static_cast<uint8_t>(want.tm_mday), static_cast<uint8_t>(want.tm_mon + 1), static_cast<int32_t>(wy)) == wd, "day-of-week-dmy", "%lld-%d-%d", (long long)wy, want.tm_mon + 1, want.tm_mday);
	time_t t = date::to_time_t(D(n));
	VH_CHECK(c, t == (n - unix_jdn) * 86400, "date-to-time_t", "day %lld gives %lld", (long long)n, (long long)t);
	time_t t2 = t + static_cast<time_t>(r.one<int64_t>({ 0, 1, 86399, r.range(0, 86399) }));
	VH_CHECK(c, date::from_time_t(t2) == D(n), "date-from-time_t", "%lld gives %d, %lld expected", (long long)t2, date::from_time_t(t2).time_since_epoch().count(), (long long)n);
	timespec ts{ t2, static_cast<long>(r.below(1000000000)) };
	VH_CHECK(c, date::from_system(ts) == D(n), "date-from-timespec", "%lld", (long long)t2);
	VH_CHECK(c, stamp::from_date(D(n)) == S(n * day_ms), "from-date", "%lld", (long long)n);
	c.sig(static_cast<uint64_t>(n));
	if (n < 0) c.count("before_epoch");
}
VH_GROUP(stamp, 200000, 3000000, 50000)
{
	auto& r = c.rng;
	int64_t n = random_day(r);
	int64_t ms = r.one<int64_t>({ 0, 1, 999, 1000, 59999, day_ms - 1, r.range(0, day_ms - 1), r.range(0, day_ms - 1), r.range(0, day_ms - 1) });
	int64_t v = n * day_ms + ms;
	auto want = civil(n, ms / 1000);
	int64_t wy = static_cast<int64_t>(want.tm_year) + 1900;
	uint8_t d = 99, m = 99, H = 99, M = 99, s = 99;
	int32_t y = 99;
	uint16_t x = 9999;
	stamp::to_dmy(S(v), &d, &m, &y, &H, &M, &s, &x);
	VH_CHECK(c, d == want.tm_mday && m == want.tm_mon + 1 && y == wy && H == want.tm_hour && M == want.tm_min && s == want.tm_sec && x == ms % 1000, "stamp-to-dmy",
		"%lld gives %d-%d-%d %d:%d:%d.%d, %lld-%d-%d %d:%d:%d.%d expected", (long long)v, y, m, d, H, M, s, x, (long long)wy, want.tm_mon + 1, want.tm_mday, want.tm_hour, want.tm_min, want.tm_sec, (int)(ms % 1000));
	{
		uint8_t a = 99, b = 99, e = 99; uint16_t g = 9999;
		stamp::to_dmy(S(v), nullptr, nullptr, nullptr, r.coin() ? &a : nullptr, nullptr, &b, nullptr);
		stamp::to_dmy(S(v), nullptr, nullptr, nullptr, nullptr, &e, nullptr, &g);
		VH_CHECK(c, (a == 99 || a == H) && b == s && e == M && g == x, "stamp-part", "%lld", (long long)v);
	}
	auto back = stamp::from_dmy(static_cast<uint8_t>(want.tm_mday), static_cast<uint8_t>(want.tm_mon + 1), static_cast<int32_t>(wy),
		static_cast<uint8_t>(want.tm_hour), static_cast<uint8_t>(want.tm_min), static_cast<uint8_t>(want.tm_sec), static_cast<uint16_t>(ms % 1000));
	VH_CHECK(c, back == S(v), "stamp-from-dmy", "%lld gives %lld", (long long)v, (long long)back.time_since_epoch().count());
	VH_CHECK(c, stamp::to_date(S(v)) == D(n), "to-date", "%lld gives %d, %lld expected", (long long)v, stamp::to_date(S(v)).time_since_epoch().count(), (long long)n);
	time_t t = (n - unix_jdn) * 86400 + ms / 1000;
	VH_CHECK(c, stamp::to_time_t(S(v)) == t, "stamp-to-time_t", "%lld gives %lld, %lld expected", (long long)v, (long long)stamp::to_time_t(S(v)), (long long)t);
	VH_CHECK(c, stamp::from_time_t(t) == S(v - ms % 1000), "stamp-from-time_t", "%lld", (long long)t);
	timespec ts{ t, static_cast<long>(ms % 1000 * 1000000 + static_cast<int64_t>(r.below(1000000))) };
	VH_CHECK(c, stamp::from_system(ts) == S(v), "stamp-from-timespec", "%lld.%09ld gives %lld, %lld expected", (long long)ts.tv_sec, ts.tv_nsec, (long long)stamp::from_system(ts).time_since_epoch().count(), (long long)v);
	tm got;
	memset(&got, 0xa5, sizeof(got));
	stamp::to_system(S(v), got);
	VH_CHECK(c, got.tm_sec == want.tm_sec && got.tm_min == want.tm_min && got.tm_hour == want.tm_hour && got.tm_mday == want.tm_mday && got.tm_mon == want.tm_mon && got.tm_year == want.tm_year && got.tm_wday == want.tm_wday && !got.tm_isdst, "broken-down", "%lld", (long long)v);
	VH_CHECK(c, got.tm_yday == want.tm_yday, "broken-down-yday", "%lld gives day of year %d, %d expected", (long long)v, got.tm_yday, want.tm_yday);
	VH_CHECK(c, got.tm_gmtoff == 0, "broken-down-offset", "%lld gives time zone offset %ld", (long long)v, got.tm_gmtoff);
	VH_CHECK(c, timegm(&got) == t, "broken-down-back", "%lld", (long long)v);
	c.sig(static_cast<uint64_t>(v));
	if (v < 0) c.count("before_epoch");
}
template <class T> static std::basic_string<T> widen(const std::string& s) { return std::basic_string<T>(s.begin(), s.end()); }
VH_GROUP(text, 30000, 300000, 5000)
{
	auto& r = c.rng;
	int64_t n = r.coin() ? r.range(1721426, 5373484) : random_day(r);
	int64_t ms = r.range(0, day_ms - 1);
	auto tp = S(n * day_ms + ms);
	auto want = civil(n, ms / 1000);
	want.tm_zone = nullptr;
	std::string f;
	static const std::vector<std::string> spec{ "%a", "%A", "%b", "%B", "%c", "%C", "%d", "%D", "%e", "%F", "%g", "%G", "%H", "%I", "%j", "%m", "%M", "%n", "%p", "%R", "%S", "%T", "%u", "%U", "%V", "%w", "%W", "%x", "%X", "%y", "%Y", "%z", "%%" };
	size_t k = r.chance(1, 10) ? 0 : r.below(r.chance(1, 20) ? 700 : 12);
	for (size_t i = 0; i < k; i++) f += r.coin() ? r.pick(spec) : std::string(1, static_cast<char>(r.coin() ? ' ' : 'a' + r.below(26)));
	if (r.chance(1, 8)) f += std::string(r.range(1000, 1050) * (r.coin() ? 1 : 2), '-');
	locale_t loc = r.coin() ? stdex::locale_C.get() : stdex::locale_default.get();
	std::vector<char> buf(1 << 16);
	auto fs = f + "|";
	size_t len = strftime_l(buf.data(), buf.size(), fs.c_str(), &want, stdex::locale_C.get());
	std::string w(buf.data(), len ? len - 1 : 0);
	auto s = stamp::to_str(tp, f.c_str(), loc);
	VH_CHECK(c, s == w, "to-str", "%s gives %s, %s expected", show(f).c_str(), show(s).c_str(), show(w).c_str());
	auto ws = stamp::to_str(tp, widen<wchar_t>(f).c_str(), loc);
	VH_CHECK(c, ws == widen<wchar_t>(w), "to-str-wide", "%s gives %s, %s expected", show(f).c_str(), show(ws).c_str(), show(w).c_str());
	auto rfc = stamp::to_rfc822(tp);
	static const char* dn[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
	static const char* mn[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
	auto e = fmt("%s, %02d %s %lld %02d:%02d:%02d GMT", dn[want.tm_wday], want.tm_mday, mn[want.tm_mon], static_cast<long long>(want.tm_year) + 1900, want.tm_hour, want.tm_min, want.tm_sec);
	VH_CHECK(c, rfc == e, "rfc822", "%s, %s expected", show(rfc).c_str(), show(e).c_str());
	if (!w.empty()) c.sig(w);
}
VH_GROUP(now, 2000, 20000, 1)
{
	time_t a = time(nullptr);
	auto s = stamp::now();
	auto d = date::now();
	time_t b = time(nullptr);
	auto t = stamp::to_time_t(s);
	VH_CHECK(c, a <= t && t <= b, "now", "%lld is not in %lld..%lld", (long long)t, (long long)a, (long long)b);
	VH_CHECK(c, date::from_time_t(a) <= d && d <= date::from_time_t(b), "today", "%d", d.time_since_epoch().count());
	c.sig(static_cast<uint64_t>(t));
}
VH_MAIN
