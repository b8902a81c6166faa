// P05: date, time, angle, phone number, emoticon and chemical formula parsers against an independent reading of their grammars.
#include "probe.hpp"

static size_t num(const std::wstring& s, const Piece& p)
{
	size_t v = 0;
	for (size_t i = p.from; p.on && i < p.to; i++) v = v * 10 + static_cast<size_t>(s[i] - L'0');
	return v;
}
static bool fits(const Piece& p) { return !p.on || p.to - p.from <= 18; }
static std::wstring spaces(Rng& r, unsigned den = 4) { return r.chance(1, den) ? std::wstring(1 + r.below(3), L' ') : L""; }

// Dates
static const int dmy = sp::date_format_dmy, mdy = sp::date_format_mdy, ymd = sp::date_format_ymd, ym = sp::date_format_ym, my = sp::date_format_my, dm = sp::date_format_dm, md = sp::date_format_md;

static bool in_month(size_t d, size_t m)
{
	static const size_t days[] = { 0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	return 1 <= m && m <= 12 && 1 <= d && d <= days[m];
}

struct Day
{
	int format = 0;
	Piece all, d, m, y;
};

// Three or two numbers in given order
static bool try_date(const In& in, size_t start, const char* order, Day& o)
{
	o = Day();
	size_t e = start;
	wchar_t sep = 0;
	const size_t n = strlen(order);
	size_t after = 0;
	for (size_t i = 0; i < n; i++) {
		size_t to = in.digs(e);
		if (to == e) return false;
		(order[i] == 'd' ? o.d : order[i] == 'm' ? o.m : o.y) = Piece(e, to);
		after = e = to;
		e = in.blanks(e);
		if (i + 1 < n) {
			if (!in.is(e, L"./-") || (sep && in.at(e) != sep)) return false;
			sep = in.at(e);
			e = in.blanks(e + 1);
		}
	}
	if (!o.y.on && in.at(e) == sep) after = e + 1;
	size_t d = o.d.on ? num(in.s, o.d) : 1;
	if (!in_month(d, num(in.s, o.m))) return false;
	o.all = Piece(start, after);
	return true;
}

VH_GROUP(date, 150000, 3000000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		static const struct { int f; const char* order; } forms[] = { { dmy, "dmy" }, { mdy, "mdy" }, { ymd, "ymd" }, { ym, "ym" }, { my, "my" }, { dm, "dm" }, { md, "md" } };
		auto& form = forms[r.below(7)];
		const std::wstring sep(1, r.one({ L'.', L'/', L'-' }));
		std::wstring good;
		size_t m = static_cast<size_t>(r.range(0, 13)), d = r.coin() ? static_cast<size_t>(r.range(27, 32)) : static_cast<size_t>(r.range(0, 33));
		bool dense = r.coin();
		for (const char* o = form.order; *o; o++) {
			if (o != form.order) good += (dense ? L"" : spaces(r)) + (r.chance(1, 25) ? std::wstring(1, r.one({ L'.', L'/', L'-', L',' })) : sep) + (dense ? L"" : spaces(r));
			if (r.chance(1, 5)) good += L"0";
			good += std::to_wstring(*o == 'd' ? d : *o == 'm' ? m : static_cast<size_t>(r.coin() ? r.range(1900, 2100) : r.range(0, 99999)));
		}
		if (strlen(form.order) == 2 && r.coin()) good += spaces(r) + sep;
		static const Words t = { L"1", L"12", L"31", L"30", L"29", L"2024", L".", L"/", L"-", L" ", L"\t", L"\n", L". ", L"02", L"0", L"a" };
		auto w = mess(r, good, t, start);
		In in{ w };
		int mask = r.chance(1, 3) ? form.f : r.coin() ? static_cast<int>(r.below(128)) : r.coin() ? 127 : form.f | static_cast<int>(r.below(128));
		Day o;
		bool any = false;
		for (auto& i : forms)
			if ((mask & i.f) && try_date(in, start, i.order, o)) { o.format = i.f; any = true; break; }
		if (!any) o = Day();
		if (!fits(Piece(start, in.digs(start))) || !fits(o.d) || !fits(o.m) || !fits(o.y)) return;
		Probe<F> q(c, w, start, F::enc(w, r));
		// What no form in use needs may be missing
		const bool day = (mask & (dmy | mdy | ymd | dm | md)) || r.coin(), year = (mask & (dmy | mdy | ymd | ym | my)) || r.coin();
		auto i = kit::date<F>(mask, day, year);
		if (r.coin()) { auto u = F::enc(L"13.12.2011", r); i->match(u.s.data(), 0, u.s.size()); }
		q.run(*i);
		q.whole("date", o.all, i->interval);
		VH_CHECK(c, i->format == o.format, "date format", "%s: format is %d, must be %d", q.where().c_str(), static_cast<int>(i->format), o.format);
		q.part("day", "day", i->day, o.d);
		q.part("month", "month", i->month, o.m);
		q.part("year", "year", i->year, o.y);
		if (o.d.on) q.value("day value", i->day->value, num(w, o.d));
		if (o.m.on) q.value("month value", i->month->value, num(w, o.m));
		if (o.y.on) q.value("year value", i->year->value, num(w, o.y));
		if (o.all.on) c.count(o.d.on && o.y.on ? "full dates" : "partial dates");
	});
}

// Times
VH_GROUP(time, 100000, 2000000, 15000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		const unsigned mask = r.chance(2, 3) ? 7 : static_cast<unsigned>(r.below(8));
		const std::wstring sep(1, r.one({ L':', L'.' }));
		auto part = [&](int top) { auto v = std::to_wstring(r.coin() ? r.range(0, top) : r.range(top - 2, top + 2)); return r.chance(1, 3) && v.size() < 2 ? L"0" + v : v; };
		std::wstring good = part(23) + sep + part(59);
		if (r.chance(2, 3)) {
			good += r.chance(1, 12) ? r.one({ L":", L"." }) : sep;
			good += part(59);
			if (r.coin()) good += L"," + (r.coin() ? digits(r, 1, 3) : part(999));
		}
		static const Words t = { L"0", L"1", L"59", L"60", L"61", L":", L".", L",", L" ", L":00", L".59", L",999", L",1000", L"a" };
		auto w = mess(r, good, t, start);
		In in{ w };
		Piece h, m, s, ms, all;
		size_t e = in.digs(start);
		if (e > start && in.is(e, L":.")) {
			size_t e2 = in.digs(e + 1);
			if (e2 > e + 1 && num(w, { e + 1, e2 }) < 60) {
				h = Piece(start, e);
				m = Piece(e + 1, e2);
				all = Piece(start, e2);
				size_t e3 = in.digs(e2 + 1);
				if ((mask & 1) && in.at(e2) == in.at(e) && e3 > e2 + 1 && num(w, { e2 + 1, e3 }) < 60) {
					s = Piece(e2 + 1, e3);
					all.to = e3;
					size_t e4 = in.digs(e3 + 1);
					if ((mask & 6) == 6 && in.at(e3) == L',' && e4 > e3 + 1 && num(w, { e3 + 1, e4 }) < 1000) {
						ms = Piece(e3 + 1, e4);
						all.to = e4;
					}
				}
			}
		}
		for (size_t i = start, n = 0; i < w.size(); i++) if ((n = in.dig(i) ? n + 1 : 0) > 18) return;
		Probe<F> q(c, w, start, F::enc(w, r));
		auto i = kit::time<F>(mask);
		if (r.coin()) { auto u = F::enc(L"13:12:11,123", r); i->match(u.s.data(), 0, u.s.size()); }
		q.run(*i);
		q.whole("time", all, i->interval);
		q.part("hour", "hour", i->hour, h);
		q.part("minute", "minute", i->minute, m);
		q.part("second", "second", i->second, s);
		q.part("millisecond", "millisecond", i->millisecond, ms);
		if (h.on) q.value("hour value", i->hour->value, num(w, h));
		if (m.on) q.value("minute value", i->minute->value, num(w, m));
		if (s.on) q.value("second value", i->second->value, num(w, s));
		if (ms.on) q.value("millisecond value", i->millisecond->value, num(w, ms));
	});
}

// Angles
VH_GROUP(angle, 100000, 2000000, 15000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		auto part = [&](int top) { return std::to_wstring(r.coin() ? r.range(0, top) : r.range(top - 2, top + 2)); };
		std::wstring good;
		if (r.chance(2, 3)) good += part(360) + L"\u00b0";
		if (r.chance(2, 3)) good += part(59) + L"'";
		if (r.chance(2, 3)) good += part(59) + (r.coin() ? L"\"" : L"");
		if (r.chance(1, 3)) good += L"," + digits(r, 1, 4);
		static const Words t = { L"0", L"1", L"59", L"60", L"61", L"\u00b0", L"'", L"\"", L" ", L",", L",5", L"59'", L"a" };
		auto w = mess(r, good, t, start);
		In in{ w };
		for (size_t i = start, n = 0; i < w.size(); i++) if ((n = in.dig(i) ? n + 1 : 0) > 18) return;
		bool decimals = r.chance(3, 4);
		const unsigned mask = r.chance(2, 3) ? 3 : static_cast<unsigned>(r.below(4));
		Piece d, ds, m, ms, s, ss, dec, all;
		size_t e = start, n = in.digs(e);
		if (n > e && in.at(n) == L'\u00b0') { d = Piece(e, n); ds = Piece(n, n + 1); e = n + 1; }
		n = in.digs(e);
		if (n > e && num(w, { e, n }) < 60 && in.at(n) == L'\'') { m = Piece(e, n); ms = Piece(n, n + 1); e = n + 1; }
		n = in.digs(e);
		if ((mask & 1) && n > e && num(w, { e, n }) < 60) {
			s = Piece(e, n);
			e = n;
			if ((mask & 2) && in.at(e) == L'"') { ss = Piece(e, e + 1); e++; }
		}
		if (d.on || m.on || s.on) {
			if (decimals && in.at(e) == L',' && (n = in.digs(e + 1)) > e + 1) { dec = Piece(e, n); e = n; }
			all = Piece(start, e);
		}
		Probe<F> q(c, w, start, F::enc(w, r));
		auto i = kit::angle<F>(decimals, mask);
		if (r.coin()) { auto u = F::enc(L"10\u00b013'12\",123", r); i->match(u.s.data(), 0, u.s.size()); }
		q.run(*i);
		q.whole("angle", all, i->interval);
		q.part("degree", "degree", i->degree, d);
		q.part("degree separator", "degree separator", i->degree_separator, ds);
		q.part("angle minute", "minute", i->minute, m);
		q.part("minute separator", "minute separator", i->minute_separator, ms);
		q.part("angle second", "second", i->second, s);
		q.part("second separator", "second separator", i->second_separator, ss);
		q.part("decimals", "decimals", i->decimal, dec);
		if (d.on) q.value("degree value", i->degree->value, num(w, d));
		if (m.on) q.value("angle minute value", i->minute->value, num(w, m));
		if (s.on) q.value("angle second value", i->second->value, num(w, s));
	});
}

// Phone numbers
VH_GROUP(phone, 150000, 3000000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		std::wstring good;
		if (r.coin()) good += L"+";
		bool open = false, opened = false;
		for (size_t n = r.range(1, 6); n; --n) {
			if (!opened && r.chance(1, 4)) { good += r.chance(3, 4) ? L"(" : L"["; open = opened = true; }
			good += digits(r, 1, 4);
			if (open && r.chance(2, 3)) { good += good.find(L'(') != std::wstring::npos && r.chance(9, 10) ? L")" : L"]"; open = false; }
			switch (r.below(4)) {
			case 0: good += L" "; break;
			case 1: good += r.one({ L"-", L"/", L"." }); break;
			case 2: good += spaces(r); break;
			}
		}
		static const Words t = { L"0", L"1", L"23", L"456", L" ", L"  ", L"-", L"/", L".", L"(", L")", L"[", L"]", L"()", L"(2)", L"+", L"\n", L"a" };
		auto w = mess(r, good, t, start);
		In in{ w };
		unsigned mask = r.chance(2, 3) ? 15 : static_cast<unsigned>(r.below(16)) | (r.chance(1, 4) ? 16u << r.below(2) : 0);

		size_t e = start, safe = start, safe_keep = 0;
		std::vector<size_t> keep; // Characters of the value
		bool outside = false;
		wchar_t kind = 0; // Open parenthesis
		bool closed = false;
		enum { begin, digit, rparen, other } last = begin;
		if ((mask & 1) && in.at(e) == L'+') { keep.push_back(e++); safe_keep = 1; }
		for (;; e++) {
			wchar_t ch = in.at(e);
			if (in.dig(e)) {
				keep.push_back(e);
				last = digit;
				if (!kind || closed) { outside = true; safe = e + 1; safe_keep = keep.size(); }
			}
			else if ((mask & 50) == 2 && !kind && in.is(e, L"([")) { keep.push_back(e); kind = ch; last = other; }
			else if (kind && !closed && ch == (kind == L'(' ? L')' : L']')) { keep.push_back(e); closed = true; safe = e + 1; safe_keep = keep.size(); last = rparen; }
			else if ((mask & 4) && last == digit && (!kind || closed) && in.is(e, L"-/.")) last = other;
			else if ((mask & 8) && (last == digit || last == rparen) && (ch == L' ' || ch == L'\t')) last = other;
			else break;
		}
		Piece all;
		if (outside) { all = Piece(start, safe); keep.resize(safe_keep); }
		else keep.clear();
		Probe<F> q(c, w, start, F::enc(w, r));
		std::basic_string<typename F::T> value;
		for (auto k : keep) value += q.t.s.substr(q.t.pos[k], q.t.pos[k + 1] - q.t.pos[k]);
		auto i = kit::phone<F>(mask);
		if (r.coin()) { auto u = F::enc(L"+386 (1) 234-567", r); i->match(u.s.data(), 0, u.s.size()); }
		q.run(*i);
		q.whole("phone", all, i->interval);
		VH_CHECK(c, i->value == value, "phone value", "%s: value is %s, must be %s", q.where().c_str(), show(i->value).c_str(), show(value).c_str());
	});
}

// Emoticons
VH_GROUP(emoticon, 80000, 1000000, 3000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		std::wstring good;
		if (r.chance(1, 4) && !std::is_same_v<F, Char>) good = r.one({ L"\u263a", L"\u2639" });
		else {
			if (r.coin()) good += L">";
			good += r.one({ L":", L";", L"=" });
			if (r.coin()) good += L"-";
			wchar_t mouth = r.one({ L')', L'(', L'D', L'P' });
			good += std::wstring(1 + r.below(4), mouth);
			if (r.chance(1, 3)) good += r.one({ L')', L'(', L'D', L'P' });
		}
		static const Words t = { L">", L":", L";", L"=", L"-", L")", L"(", L"D", L"P", L"p", L":-", L" " };
		auto w = mess(r, good, t, start);
		In in{ w };
		Piece whole, apex, eyes, nose, mouth, all;
		const unsigned mask = r.chance(2, 3) ? 7 : static_cast<unsigned>(r.below(8));
		size_t hit = SIZE_MAX;
		if ((mask & 1) && !std::is_same_v<F, Char> && (in.at(start) == L'\u263a' || in.at(start) == L'\u2639')) all = whole = Piece(start, start + 1);
		else {
			size_t e = start;
			if ((mask & 2) && in.at(e) == L'>') { apex = Piece(e, e + 1); e++; }
			if (in.is(e, L":;=")) {
				eyes = Piece(e, e + 1);
				e++;
				if ((mask & 4) && in.at(e) == L'-') { nose = Piece(e, e + 1); e++; }
			}
			// Letter case of mouths is not generated to differ from the set's.
			if (eyes.on && in.is(e, L")(DP")) {
				hit = static_cast<size_t>(wcschr(L")(DP", in.at(e)) - L")(DP");
				size_t n = e;
				while (in.at(n) == in.at(e)) n++;
				mouth = Piece(e, n);
				all = Piece(start, n);
			}
			else apex = eyes = nose = Piece();
		}
		Probe<F> q(c, w, start, F::enc(w, r));
		q.flags &= ~sp::match_case_insensitive;
		auto i = kit::emoticon<F>(mask);
		if (r.coin()) { auto u = F::enc(L">:-)))", r); i->match(u.s.data(), 0, u.s.size()); }
		q.run(*i);
		q.whole("emoticon", all, i->interval);
		q.part("emoticon whole", "emoticon", i->emoticon, whole);
		q.part("apex", "apex", i->apex, apex);
		q.part("eyes", "eyes", i->eyes, eyes);
		q.part("nose", "nose", i->nose, nose);
		q.part("mouth", "mouth", i->mouth, mouth);
		if (mouth.on)
			VH_CHECK(c, i->mouth->hit_offset == hit, "mouth kind", "%s: mouth is %zd, must be %zu", q.where().c_str(), static_cast<ssize_t>(i->mouth->hit_offset), hit);
	});
}

// Chemical formulae
VH_GROUP(chemical, 80000, 1000000, 15000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		static const Words elements = { L"Na", L"Cl", L"H", L"O", L"C", L"S" };
		std::wstring good;
		for (size_t n = r.range(1, 5); n; --n) {
			good += r.pick(elements);
			if (r.coin()) good += digits(r, 1, 2);
			else if (!std::is_same_v<F, Char> && r.chance(1, 3)) good += L"\u2082";
		}
		if (r.chance(1, 3)) good += r.one({ L"+", L"-" });
		static const Words t = { L"Na", L"Cl", L"H", L"O", L"C", L"S", L"N", L"na", L"h", L"2", L"14", L"+", L"-", L" " };
		auto w = mess(r, good, t, start);
		In in{ w };
		size_t e = start;
		bool has_digits = false, has_charge = false;
		for (;;) {
			size_t n = 0;
			for (auto& el : elements) if (!n && w.compare(e, el.size(), el) == 0) n = el.size();
			if (!n) break;
			e += n;
			while (in.dig(e) || (!std::is_same_v<F, Char> && in.is(e, L"\u2082\u2084"))) { has_digits = true; e++; }
		}
		Piece all;
		if (e > start) {
			if (in.is(e, L"+-")) { has_charge = true; e++; }
			all = Piece(start, e);
		}
		Probe<F> q(c, w, start, F::enc(w, r));
		auto i = kit::chemical<F>();
		if (r.coin()) { auto u = F::enc(L"H2O+", r); i->match(u.s.data(), 0, u.s.size()); }
		q.run(*i);
		q.whole("formula", all, i->interval);
		VH_CHECK(c, i->has_digits == has_digits && i->has_charge == has_charge, "formula marks", "%s: has_digits %d, has_charge %d, must be %d and %d", q.where().c_str(), i->has_digits, i->has_charge, has_digits, has_charge);
	});
}

VH_MAIN
