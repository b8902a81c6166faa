// P02: number parsers against an independent reading of the number grammar.
#include "probe.hpp"

static size_t num(const std::wstring& s, const Piece& p, size_t base = 10)
{
	size_t v = 0;
	for (size_t i = p.from; p.on && i < p.to; i++)
		v = v * base + static_cast<size_t>(s[i] <= L'9' ? s[i] - L'0' : (s[i] | 0x20) - L'a' + 10);
	return v;
}

static std::wstring number(Rng& r, size_t max = 19)
{
	static const size_t edge[] = { 0, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 65535, 65536, 999999, 4294967295u, 4294967296u };
	switch (r.below(4)) {
	case 0: return std::to_wstring(edge[r.below(std::size(edge))]).substr(0, max);
	case 1: return digits(r, 1, 3);
	case 2: return std::wstring(r.below(4), L'0') + digits(r, 1, max < 8 ? max - 3 : max - 4);
	default: return digits(r, 1, max);
	}
}

static const Words digs_t = { L"0", L"1", L"5", L"9", L"12", L"007", L"123", L" ", L".", L",", L"a", L"F", L"x", L"-" };

VH_GROUP(integer, 150000, 3000000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		bool hex = r.coin();
		std::wstring good;
		if (hex) for (size_t n = r.range(1, r.chance(1, 4) ? 16 : 6); n; --n) good += L"0123456789abcdefABCDEF"[r.below(22)];
		else good = number(r);
		auto w = mess(r, good, digs_t, start);
		In in{ w };
		size_t e = start;
		if (hex) while (in.is(e, L"0123456789abcdefABCDEF")) e++;
		else e = in.digs(start);
		if (e - start > (hex ? 16u : 19u)) return; // does not fit
		Piece p = e > start ? Piece(start, e) : Piece();
		Probe<F> q(c, w, start, F::enc(w, r));
		auto go = [&](auto i) {
			q.run(*i);
			q.whole(hex ? "hexadecimal" : "decimal", p, i->interval);
			q.value("value", i->value, num(w, p, hex ? 16 : 10));
		};
		if (hex) go(int16<F>()); else go(int10<F>());
	});
}

static std::wstring grouped(Rng& r, wchar_t sep)
{
	auto s = digits(r, 1, 3);
	for (size_t n = r.below(6); n; --n) { s += sep; s += digits(r, 3, 3); }
	return s;
}
VH_GROUP(separated, 100000, 2000000, 15000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		auto good = r.chance(2, 3) ? grouped(r, r.coin() ? L'.' : L'\'') : r.coin() ? number(r) : grouped(r, L'.') + std::wstring(1, r.one({ L'.', L'\'' })) + digits(r, 1, 4);
		static const Words t = { L"0", L"1", L"12", L"123", L"1234", L".", L"'", L".123", L"'456", L".12", L" ", L"a" };
		auto w = mess(r, good, t, start);
		In in{ w };
		size_t e = in.digs(start), n = e - start, v = num(w, { start, e });
		bool seps = false;
		if (n && n <= 3) {
			wchar_t s = in.at(e);
			if (s == L'.' || s == L'\'')
				while (in.at(e) == s && in.digs(e + 1) == e + 4) {
					v = v * 1000 + num(w, { e + 1, e + 4 });
					e += 4;
					n += 3;
					seps = true;
				}
		}
		if (n > 19) return;
		Piece p = n ? Piece(start, e) : Piece();
		Probe<F> q(c, w, start, plain<F>(w, r));
		auto i = int10ts<F>(L".'");
		if (r.coin()) { auto o = F::enc(L"1'234'567", r); i->match(o.s.data(), 0, o.s.size()); } // used before
		q.run(*i);
		q.whole("separated", p, i->interval);
		q.value("value", i->value, p.on ? v : 0);
		if (p.on) {
			VH_CHECK(c, i->digit_count == n, "digit count", "%s: digit_count is %zu, must be %zu", q.where().c_str(), i->digit_count, n);
			VH_CHECK(c, i->has_separators == seps, "has separators", "%s: has_separators is %d, must be %d", q.where().c_str(), i->has_separators, seps);
		}
		else
			VH_CHECK(c, !i->digit_count && !i->has_separators, "stale count", "%s: no match, but digit_count is %zu and has_separators %d", q.where().c_str(), i->digit_count, i->has_separators);
	});
}

// Canonical Roman numerals
static std::wstring roman_text(size_t v)
{
	static const struct { size_t v; const wchar_t* s; } d[] = {
		{ 10000, L"\u2182" }, { 9000, L"M\u2182" }, { 5000, L"\u2181" }, { 4000, L"M\u2181" }, { 1000, L"M" }, { 900, L"CM" }, { 500, L"D" }, { 400, L"CD" },
		{ 100, L"C" }, { 90, L"XC" }, { 50, L"L" }, { 40, L"XL" }, { 10, L"X" }, { 9, L"IX" }, { 5, L"V" }, { 4, L"IV" }, { 1, L"I" } };
	std::wstring s;
	for (auto& i : d)
		while (v >= i.v) { s += i.s; v -= i.v; }
	return s;
}
VH_GROUP(roman, 40000, 400000, 10000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t v = static_cast<size_t>(r.range(1, r.coin() ? 399 : 39999));
		std::wstring w = r.chance(1, 3) ? soup(r, { L"I", L"x", L" ", L"V." }, 3, 4) : L"";
		size_t start = w.size();
		w += roman_text(v);
		Piece p(start, w.size());
		if (r.coin()) w += r.one({ L" ", L".", L"a", L"1", L"-IV", L"\u00a0" });
		Probe<F> q(c, w, start, F::enc(w, r));
		auto i = kit::roman<F>();
		q.run(*i);
		q.whole("roman", p, i->interval);
		q.value("value", i->value, v);
	});
}

// Any sequence of Roman digits: what is accepted follows the rules, and counts what the digits say
VH_GROUP(roman_hostile, 60000, 1000000, 10000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		static const std::wstring digits = L"IVXLCDM\u2181\u2182";
		static const size_t values[] = { 1, 5, 10, 50, 100, 500, 1000, 5000, 10000 };
		std::wstring w;
		const size_t base = static_cast<size_t>(r.below(digits.size())), span = static_cast<size_t>(r.range(1, 9)), most = static_cast<size_t>(r.range(1, 10));
		while (w.size() < most) {
			wchar_t d = digits[std::min(digits.size() - 1, base + static_cast<size_t>(r.below(span)))];
			for (size_t i = r.chance(1, 6) ? static_cast<size_t>(r.range(2, 5)) : 1; i; i--) w += d;
		}
		if (r.chance(1, 4)) w += roman_text(static_cast<size_t>(r.range(1, 3999)));
		std::vector<size_t> v;
		for (auto d : w) v.push_back(values[digits.find(d)]);
		Probe<F> q(c, w, 0, F::enc(w, r));
		// Digits nobody knows end the numeral
		const unsigned known = r.coin() ? 511 : static_cast<unsigned>(r.coin() ? (1 << r.below(10)) - 1 : r.below(512));
		size_t most_known = 0;
		while (most_known < w.size() && known & (1u << digits.find(w[most_known]))) most_known++;
		auto i = kit::roman<F>(known);
		q.run(*i);
		if (!most_known) {
			VH_CHECK(c, !q.ok, "roman", "%s: matches without any of its digits", q.where().c_str());
			c.count("no digits");
			return;
		}
		VH_CHECK(c, q.ok, "roman", "%s: no match", q.where().c_str());
		size_t n = 0;
		while (n < w.size() && q.t.pos[n] < i->interval.end) n++;
		VH_CHECK(c, i->interval.start == 0 && q.t.pos[n] == i->interval.end, "roman", "%s: match is %s", q.where().c_str(), iv(i->interval).c_str());
		size_t sum = 0;
		for (size_t k = 0; k < n; k++) {
			const bool less = k + 1 < n && v[k] < v[k + 1];
			sum += less ? 0 - v[k] : v[k];
			bool ten = v[k] == 1 || v[k] == 10 || v[k] == 100 || v[k] == 1000;
			VH_CHECK(c, !less || (ten && v[k + 1] <= 10 * v[k]), "subtraction", "%s: %s is accepted, but %zu must not precede %zu", q.where().c_str(), iv(i->interval).c_str(), v[k], v[k + 1]);
			VH_CHECK(c, k < 3 || v[k] == v[0] || v[k - 1] != v[k] || v[k - 2] != v[k] || v[k - 3] != v[k], "repetition", "%s: %s is accepted, but %zu is repeated four times", q.where().c_str(), iv(i->interval).c_str(), v[k]);
		}
		q.value("value", i->value, sum);
		// The longest proper numeral the text begins with is never cut
		size_t rest = 0, good = 0;
		VH_CHECK(c, n <= most_known, "roman", "%s: match is %s, but only the first %zu digits are known", q.where().c_str(), iv(i->interval).c_str(), most_known);
		for (size_t k = 0; k < most_known; k++) {
			rest = 0;
			for (size_t j = 0; j <= k; j++) rest += j < k && v[j] < v[j + 1] ? 0 - v[j] : v[j];
			if (rest && rest < 40000 && roman_text(rest) == w.substr(0, k + 1)) good = k + 1;
		}
		VH_CHECK(c, n >= good, "cut", "%s: %s is accepted, but the first %zu digits are a numeral", q.where().c_str(), iv(i->interval).c_str(), good);
		c.count(n < w.size() ? "cut short" : "accepted whole");
		c.sig(hash_bytes(w.data(), w.size() * sizeof(wchar_t)));
	});
}

struct Sign { Piece pos, neg, spec; size_t end; };
static Sign sign(const In& in, size_t at, unsigned mask)
{
	Sign s;
	s.end = at;
	if ((mask & 1) && in.at(at) == L'+') s.pos = Piece(at, at + 1), s.end++;
	else if ((mask & 2) && in.at(at) == L'-') s.neg = Piece(at, at + 1), s.end++;
	else if ((mask & 4) && in.at(at) == L'~') s.spec = Piece(at, at + 1), s.end++;
	return s;
}
template <class Q, class X> static void signs(Q& q, X& p, const Sign& s)
{
	q.part("sign", "the positive sign", p.positive_sign, s.pos);
	q.part("sign", "the negative sign", p.negative_sign, s.neg);
	q.part("sign", "the special sign", p.special_sign, s.spec);
}
static std::wstring a_sign(Rng& r) { return r.coin() ? L"" : r.one({ L"+", L"-", L"~" }); }
static std::wstring a_gap(Rng& r) { return r.coin() ? L"" : r.one({ L" ", L"  ", L"\t", L"\n", L" \n " }); }
static const Words nums_t = { L"0", L"1", L"12", L"99", L"345", L"+", L"-", L"~", L".", L"/", L":", L" ", L"  ", L"\n", L"\t", L"e", L"E", L"$", L"\u20ac", L"x", L"e+", L"E-" };

// Two numbers with something between; a signed number; a number and a fraction
VH_GROUP(composed, 200000, 4000000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		const unsigned mask = r.coin() ? 7 : static_cast<unsigned>(r.below(8));
		const auto kind = r.below(4);
		std::wstring good;
		switch (kind) {
		case 0: good = number(r, 9) + L"/" + number(r, 9); break;
		case 1: good = number(r, 9) + a_gap(r) + L":" + a_gap(r) + number(r, 9); break;
		case 2: good = a_sign(r) + number(r, 9); break;
		default: good = a_sign(r) + (r.chance(2, 3) ? number(r, 9) : L"") + (r.chance(3, 4) ? r.one({ L" ", L"  ", L"\t " }) : a_gap(r)) + number(r, 9) + L"/" + number(r, 9);
		}
		auto w = mess(r, good, nums_t, start);
		In in{ w };
		for (size_t i = 0; i < w.size(); i++) if (in.digs(i) > i + 19) return;
		Probe<F> q(c, w, start, F::enc(w, r));
		struct Frac { Piece a, l, b; };
		auto frac = [&](size_t at, Frac& o) {
			size_t e = in.digs(at);
			if (e == at || in.at(e) != L'/') return false;
			size_t g = in.digs(e + 1);
			if (g == e + 1) return false;
			o = Frac{ { at, e }, { e, e + 1 }, { e + 1, g } };
			return true;
		};
		auto check_frac = [&](auto& p, const Frac& o) {
			q.part("numerator", "the numerator", p.numerator, o.a);
			q.part("fraction line", "the fraction line", p.fraction_line, o.l);
			q.part("denominator", "the denominator", p.denominator, o.b);
			if (o.a.on) {
				q.value("numerator", dynamic_cast<sp::basic_integer<typename F::T>&>(*p.numerator).value, num(w, o.a));
				q.value("denominator", dynamic_cast<sp::basic_integer<typename F::T>&>(*p.denominator).value, num(w, o.b));
			}
		};
		if (kind == 0) {
			auto p = fraction<F>();
			Frac o;
			Piece m = frac(start, o) ? Piece(start, o.b.to) : Piece();
			q.run(*p);
			q.whole("fraction", m, p->interval);
			check_frac(*p, o);
		}
		else if (kind == 1) {
			auto p = score<F>();
			Piece h, s, g, m;
			size_t e = in.digs(start);
			if (e > start) {
				size_t a = in.blanks(e);
				if (in.at(a) == L':') {
					size_t b = in.blanks(a + 1), d = in.digs(b);
					if (d > b) h = Piece(start, e), s = Piece(a, a + 1), g = Piece(b, d), m = Piece(start, d);
				}
			}
			q.run(*p);
			q.whole("score", m, p->interval);
			q.part("home", "home", p->home, h);
			q.part("separator", "the separator", p->separator, s);
			q.part("guest", "guest", p->guest, g);
		}
		else if (kind == 2) {
			auto p = signed_num<F>(mask);
			auto s = sign(in, start, mask);
			size_t e = in.digs(s.end);
			Piece m = e > s.end ? Piece(start, e) : Piece();
			q.run(*p);
			q.whole("signed", m, p->interval);
			q.part("number", "the number", p->number, m.on ? Piece(s.end, e) : Piece());
			signs(q, *p, m.on ? s : Sign());
			if (m.on) q.value("value", dynamic_cast<sp::basic_integer<typename F::T>&>(*p->number).value, num(w, { s.end, e }));
		}
		else {
			auto p = mixed<F>(mask);
			auto s = sign(in, start, mask);
			Piece m, i;
			Frac o, t;
			size_t e = in.digs(s.end), g = in.blanks(e);
			if (e > s.end && g > e && frac(g, t)) i = Piece(s.end, e), o = t, m = Piece(start, t.b.to);
			else if (frac(s.end, t)) o = t, m = Piece(start, t.b.to);
			else if (e > s.end) i = Piece(s.end, e), m = Piece(start, e);
			q.run(*p);
			q.whole("mixed", m, p->interval);
			q.part("integer", "the integer", p->integer, i);
			q.part("fraction", "the fraction", p->fraction, o.a.on ? Piece(o.a.from, o.b.to) : Piece());
			if (o.a.on) check_frac(dynamic_cast<sp::basic_fraction<typename F::T>&>(*p->fraction), o);
			signs(q, *p, m.on ? s : Sign());
		}
	});
}

// Integer and decimal part, at least one of them
struct Real { Piece i, sep, d; size_t end = 0; bool on = false; };
static Real real(const In& in, size_t at)
{
	Real o;
	o.end = in.digs(at);
	if (o.end > at) o.i = Piece(at, o.end), o.on = true;
	if (in.at(o.end) == L'.') {
		size_t d = in.digs(o.end + 1);
		if (d > o.end + 1) o.sep = Piece(o.end, o.end + 1), o.d = Piece(o.end + 1, d), o.end = d, o.on = true;
	}
	return o;
}

VH_GROUP(real, 200000, 4000000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		size_t start;
		const bool money = r.chance(1, 3);
		const unsigned mask = r.coin() ? 127 : static_cast<unsigned>(r.below(32)) | (r.chance(3, 4) ? 96 : static_cast<unsigned>(r.below(4)) << 5);
		std::wstring good = a_sign(r);
		if (money) good += r.coin() ? L"$" : L"\u20ac";
		if (r.chance(5, 6)) good += number(r, 18);
		if (r.chance(2, 3)) good += L"." + number(r, 12);
		if (!money && r.coin()) good += std::wstring(r.coin() ? L"e" : L"E") + r.one({ L"", L"+", L"-" }) + (r.chance(1, 3) ? digits(r, 1, 1) : std::to_wstring(r.below(r.coin() ? 30 : 290)));
		auto w = mess(r, good, nums_t, start);
		In in{ w };
		for (size_t i = 0; i < w.size(); i++) if (in.digs(i) > i + 18) return;
		Probe<F> q(c, w, start, plain<F>(w, r));
		auto s = sign(in, start, mask);
		if (money) {
			auto p = monetary<F>(mask & 7);
			Piece cur, m;
			Real o;
			if (in.is(s.end, L"$\u20ac")) {
				o = ::real(in, s.end + 1);
				if (o.on) cur = Piece(s.end, s.end + 1), m = Piece(start, o.end);
			}
			q.run(*p);
			q.whole("monetary", m, p->interval);
			q.part("currency", "the currency", p->currency, cur);
			q.part("integer", "the integer", p->integer, o.i);
			q.part("decimal separator", "the decimal separator", p->decimal_separator, o.sep);
			q.part("decimal", "the decimal part", p->decimal, o.d);
			signs(q, *p, m.on ? s : Sign());
			return;
		}
		auto p = scientific<F>(mask);
		auto o = ::real(in, s.end);
		Piece sym, pe, ne, ex, m;
		if (o.on) {
			size_t e = o.end;
			if ((mask & 96) == 96 && in.is(e, L"eE")) {
				size_t a = e + 1;
				bool pos = (mask & 8) && in.at(a) == L'+', neg = (mask & 16) && in.at(a) == L'-';
				if (pos || neg) a++;
				size_t b = in.digs(a);
				if (b > a) {
					sym = Piece(e, e + 1);
					if (pos) pe = Piece(e + 1, e + 2);
					if (neg) ne = Piece(e + 1, e + 2);
					ex = Piece(a, b);
					e = b;
				}
			}
			m = Piece(start, e);
		}
		q.run(*p);
		q.whole("scientific", m, p->interval);
		q.part("integer", "the integer", p->integer, o.i);
		q.part("decimal separator", "the decimal separator", p->decimal_separator, o.sep);
		q.part("decimal", "the decimal part", p->decimal, o.d);
		q.part("exponent symbol", "the exponent symbol", p->exponent_symbol, sym);
		q.part("exponent sign", "the positive exponent sign", p->positive_exp_sign, pe);
		q.part("exponent sign", "the negative exponent sign", p->negative_exp_sign, ne);
		q.part("exponent", "the exponent", p->exponent, ex);
		signs(q, *p, m.on ? s : Sign());
		if (m.on && num(w, ex) <= 290) {
			std::string n;
			if (s.neg.on) n += '-';
			for (size_t i = s.end; i < m.to; i++) n += static_cast<char>(w[i]);
			double must = strtod(n.c_str(), nullptr), tol = fabs(must) * 1e-12;
			if (std::isfinite(must) && fabs(must) > 1e-280 && fabs(must) < 1e290) {
				VH_CHECK(c, fabs(p->value - must) <= tol, "real value", "%s: value is %.17g, must be %.17g", q.where().c_str(), p->value, must);
				c.count("real values");
			}
			else if (must == 0)
				VH_CHECK(c, p->value == 0, "real value", "%s: value is %.17g, must be 0", q.where().c_str(), p->value);
		}
		else if (!m.on)
			c.count("not real");
	});
}
VH_MAIN
