// P04: payment references against independent check digit arithmetic.
#include "probe.hpp"

struct Country { const wchar_t* code; size_t length; const wchar_t* check; };
static const Country countries[] = {
#include "iban_table.inc"
};

// ISO 7064 MOD 97-10: remainder of the number where letters are 10 to 35
static unsigned mod97(const std::wstring& s)
{
	unsigned r = 0;
	for (auto ch : s) r = ch <= L'9' ? (r * 10 + static_cast<unsigned>(ch - L'0')) % 97 : (r * 100 + static_cast<unsigned>(ch - L'A') + 10) % 97;
	return r;
}
static std::wstring two(unsigned v) { return { static_cast<wchar_t>(L'0' + v / 10), static_cast<wchar_t>(L'0' + v % 10) }; }
static std::wstring alnums(Rng& r, size_t n, unsigned letters)
{
	std::wstring s;
	for (; n; --n) s += r.chance(letters, 8) ? static_cast<wchar_t>(L'A' + r.below(26)) : static_cast<wchar_t>(L'0' + r.below(10));
	return s;
}

// Text where letters, digits and hyphens are written as they are
template <class F> static Text<typename F::T> bare(const std::wstring& w, Rng& r)
{
	if constexpr (!F::sgml) return F::enc(w, r);
	else {
		Text<char> t;
		for (auto ch : w) {
			t.pos.push_back(t.s.size());
			if (ch < 0x7f && ch != L'&' && ch > L' ') t.s += static_cast<char>(ch);
			else t.s += F::enc(std::wstring(1, ch), r).s;
		}
		t.pos.push_back(t.s.size());
		return t;
	}
}

static std::wstring damaged(Rng& r, std::wstring s)
{
	if (s.empty()) return s;
	size_t i = static_cast<size_t>(r.below(s.size()));
	switch (r.below(8)) {
	case 0: s[i] = static_cast<wchar_t>(L'0' + r.below(10)); break;
	case 1: s[i] = static_cast<wchar_t>(L'A' + r.below(26)); break;
	case 2: if (i + 1 < s.size()) std::swap(s[i], s[i + 1]); break;
	case 3: s.erase(i, 1); break;
	case 4: s.insert(i, 1, r.one({ L'0', L'9', L'A', L'Z', L'-', L' ', L'.' })); break;
	case 5: s.resize(i); break;
	case 6: s[i] = r.one({ L'a', L'z', L'.', L'-', L'\n', L'/', L':', L'@', L'[' }); break;
	default: if (i + 2 < s.size()) std::swap(s[i], s[i + 2]); break;
	}
	return s;
}
static std::wstring lower_some(Rng& r, std::wstring s)
{
	bool all = r.coin();
	for (auto& ch : s) if (L'A' <= ch && ch <= L'Z' && (all || r.coin())) ch |= 0x20;
	return s;
}
static std::wstring around(Rng& r, const std::wstring& s, size_t& start)
{
	auto w = r.chance(1, 3) ? r.one<std::wstring>({ L"...", L"SI56", L"RF18 ", L"x", L" " }) : L"";
	start = w.size();
	w += s;
	if (r.coin()) w += r.one<std::wstring>({ L"...", L" ", L"  ", L" x", L" X1", L"7", L"-", L"--1", L"-12", L"\n", L".1", L" 5390 ", L"/" });
	return w;
}

struct Chars : In
{
	bool ci, ml, blanks_too = true; // False: no space is known
	Chars(const std::wstring& w, int flags) : In{ w }, ci((flags & sp::match_case_insensitive) != 0), ml((flags & sp::match_multiline) != 0) {}
	wchar_t up(size_t i) const { auto ch = at(i); return ci && L'a' <= ch && ch <= L'z' ? ch - 0x20 : ch; }
	bool space(size_t i) const { if (!blanks_too) return false; return is(i, L" \t") || (ml && is(i, L"\r\n\f\v")); }
	bool an(size_t i) const { auto ch = up(i); return (L'0' <= ch && ch <= L'9') || (L'A' <= ch && ch <= L'Z'); }
};
template <class T> static std::wstring wide(const T* s) { std::wstring r; while (*s) r += static_cast<wchar_t>(*s++); return r; }
template <class Q> static void text_is(Q& q, const char* key, const std::wstring& got, const std::wstring& must)
{
	VH_CHECK(q.c, got == must, key, "%s: %s is %s, must be %s", q.where().c_str(), key, show(got).c_str(), show(must).c_str());
}
template <class Q> static void valid_is(Q& q, const char* kind, bool got, bool must)
{
	VH_CHECK(q.c, got == must, "validity", "%s: %s is_valid is %d, must be %d", q.where().c_str(), kind, got, must);
	q.c.count(must ? "valid" : "invalid");
}

VH_GROUP(iban, 150000, 3000000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		auto& k = countries[r.below(std::size(countries))];
		std::wstring code = k.code, b, check;
		for (int tries = 0; tries < 400; tries++) {
			b = alnums(r, k.length - 4, static_cast<unsigned>(r.below(3)) * 3);
			check = two(98 - mod97(b + code + L"00"));
			if (!*k.check || check == k.check) break;
		}
		if (*k.check && r.coin()) check = k.check;
		if (r.chance(1, 10)) check = two((98 - mod97(b + code + L"00") + 97) % 100); // another representative
		auto s = code + check + b;
		if (r.coin()) { // groups
			std::wstring g;
			for (size_t i = 0; i < s.size(); i++) { if (i && i % 4 == 0) g += L' '; g += s[i]; }
			s = g;
		}
		else if (r.chance(1, 4))
			for (size_t n = r.below(4); n; --n) s.insert(static_cast<size_t>(r.range(r.chance(1, 4) ? 0 : 4, static_cast<int64_t>(s.size()))), 1, r.one({ L' ', L'\t', L'\n' }));
		if (r.coin()) s = damaged(r, s);
		if (r.chance(1, 4)) s = lower_some(r, s);
		size_t start;
		auto w = around(r, s, start);
		Probe<F> q(c, w, start, bare<F>(w, r));
		Chars n(w, q.flags);
		n.blanks_too = r.chance(3, 4);

		Piece m;
		std::wstring cc, ck, bb;
		bool valid = false;
		[&] {
			cc = { n.up(start), n.up(start + 1) };
			const Country* d = nullptr;
			for (auto& i : countries) if (cc == i.code) d = &i;
			if (!d || !n.dig(start + 2) || !n.dig(start + 3)) return;
			ck = w.substr(start + 2, 2);
			if (*d->check && ck != d->check) return;
			size_t i = start + 4;
			while (bb.size() < d->length - 4) {
				if (n.an(i)) bb += n.up(i);
				else if (!n.space(i)) return;
				i++;
			}
			m = Piece(start, i);
			valid = mod97(bb + cc + ck) == 1;
		}();
		auto p = kit::iban<F>(n.blanks_too);
		q.run(*p);
		if (q.whole("IBAN", m, p->interval)) {
			text_is(q, "country", wide(p->country), cc);
			text_is(q, "check digits", wide(p->check_digits), ck);
			text_is(q, "BBAN", wide(p->bban), bb);
			valid_is(q, "IBAN", p->is_valid, valid);
		}
		else if (!m.on)
			VH_CHECK(c, !p->is_valid, "validity", "%s: no IBAN, but is_valid", q.where().c_str());
	});
}

VH_GROUP(creditor, 150000, 3000000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		auto ref = alnums(r, 1 + r.below(r.chance(1, 8) ? 24 : 21), static_cast<unsigned>(r.one({ 0, 2, 4, 8 })));
		auto check = two(98 - mod97(ref + L"RF00"));
		if (r.chance(1, 10)) check = two((98 - mod97(ref + L"RF00") + 97) % 100);
		std::wstring s = L"RF" + check;
		if (r.coin()) for (size_t i = 0; i < ref.size(); i++) { if (i % 4 == 0) s += L' '; s += ref[i]; }
		else s += ref;
		if (r.coin()) s = damaged(r, s);
		if (r.chance(1, 4)) s = lower_some(r, s);
		size_t start;
		auto w = around(r, s, start);
		Probe<F> q(c, w, start, bare<F>(w, r));
		Chars n(w, q.flags);
		n.blanks_too = r.chance(3, 4);

		Piece m;
		std::wstring ck, rr;
		bool valid = false;
		[&] {
			if (n.up(start) != L'R' || n.up(start + 1) != L'F' || !n.dig(start + 2) || !n.dig(start + 3)) return;
			ck = w.substr(start + 2, 2);
			size_t i = start + 4;
			for (bool more = true; more;) {
				size_t g = n.space(i) ? i + 1 : i;
				for (size_t j = 0; j < 4; j++) {
					if (!n.an(g)) { more = false; break; }
					rr += n.up(g);
					i = ++g;
				}
			}
			if (rr.empty() || rr.size() > 21) return;
			m = Piece(start, i);
			valid = mod97(rr + L"RF" + ck) == 1;
			rr.insert(0, 21 - rr.size(), L'0');
		}();
		auto p = kit::creditor<F>(n.blanks_too);
		q.run(*p);
		if (q.whole("creditor reference", m, p->interval)) {
			text_is(q, "check digits", wide(p->check_digits), ck);
			text_is(q, "reference", wide(p->reference), rr);
			valid_is(q, "creditor reference", p->is_valid, valid);
		}
		else if (!m.on)
			VH_CHECK(c, !p->is_valid, "validity", "%s: no reference, but is_valid", q.where().c_str());
	});
}

// Control digit at the end: products of digits and weights 2, 3... from the right, modulo 11
static wchar_t control11(const std::wstring& d)
{
	unsigned sum = 0, weight = 2;
	for (size_t i = d.size(); i--; weight++) sum += static_cast<unsigned>(d[i] - L'0') * weight;
	unsigned k = 11 - sum % 11;
	return static_cast<wchar_t>(L'0' + (k > 9 ? 0 : k));
}
static bool ok11(const std::wstring& d) { return !d.empty() && control11(d.substr(0, d.size() - 1)) == d.back(); }

// What each model asks for: parts that must be there, and runs of parts that end with a control digit
struct Model { const wchar_t* models; unsigned min_parts, max_parts; const char* checks; size_t longest; };
static const Model models[] = {
	{ L"00", 1, 3, "", 12 },
	{ L"01", 1, 3, "123", 12 },
	{ L"02", 3, 3, "2,3", 12 },
	{ L"03", 3, 3, "1,2,3", 12 },
	{ L"04", 3, 3, "1,3", 12 },
	{ L"05 55", 1, 3, "1", 12 },
	{ L"06", 2, 3, "23", 12 },
	{ L"07", 2, 3, "2", 12 },
	{ L"08", 3, 3, "12,3", 12 },
	{ L"09", 1, 3, "12", 12 },
	{ L"10", 2, 3, "1,23", 12 },
	{ L"11 18 19 28 38 40 41 48 49 51 58", 2, 3, "1,2", 12 },
	{ L"12", 1, 1, "1", 13 },
	{ L"21 31", 2, 2, "1", 12 },
};
static const Model* model(const std::wstring& m)
{
	for (auto& i : models) if (std::wstring(i.models).find(m) != std::wstring::npos) return &i;
	return nullptr;
}
static bool si_valid(const std::wstring& m, const std::vector<std::wstring>& parts)
{
	auto k = model(m);
	if (!k) return true;
	if (parts.size() < k->min_parts || parts.size() > k->max_parts) return false;
	size_t total = 0;
	for (auto& p : parts) {
		if (p.size() > k->longest) return false;
		total += p.size();
	}
	if (total > 20) return false;
	std::wstring run;
	for (const char* x = k->checks;; x++) {
		if (*x == ',' || !*x) {
			if (!run.empty() && !ok11(run)) return false;
			run.clear();
			if (!*x) return true;
		}
		else if (static_cast<size_t>(*x - '1') < parts.size())
			run += parts[static_cast<size_t>(*x - '1')];
	}
}

VH_GROUP(si, 200000, 4000000, 20000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		std::wstring mod = r.chance(1, 10) ? digits(r, 2, 2) : r.one<std::wstring>({ L"00", L"01", L"02", L"03", L"04", L"05", L"06", L"07", L"08", L"09", L"10", L"11", L"12", L"18", L"19", L"21", L"28", L"31", L"38", L"40", L"41", L"48", L"49", L"51", L"55", L"58", L"99" });
		std::vector<std::wstring> parts;
		auto k = model(mod);
		size_t np = k && r.chance(7, 8) ? static_cast<size_t>(r.range(k->min_parts, k->max_parts)) : static_cast<size_t>(r.below(4));
		for (size_t i = 0; i < np; i++) parts.push_back(digits(r, 1, k && k->longest == 13 ? 13 : r.chance(1, 20) ? 14 : np == 3 ? 6 : np == 2 ? 10 : 12));
		if (r.chance(1, 20) && np) parts[static_cast<size_t>(r.below(np))] = digits(r, 11, 14);
		bool edge = np && r.chance(1, 4); // lengths at their limits
		if (edge) {
			size_t total = static_cast<size_t>(r.range(19, 22));
			for (size_t i = 0; i < np; i++) {
				size_t left = np - i - 1, n;
				if (np == 1 || r.chance(1, 4)) n = static_cast<size_t>(r.range(11, 14));
				else {
					size_t lo = total > 12 * left + 1 ? total - 12 * left : 1, hi = std::min<size_t>(12, total > left ? total - left : 1);
					n = left ? static_cast<size_t>(r.range(static_cast<int64_t>(std::min(lo, hi)), static_cast<int64_t>(hi))) : std::min<size_t>(total, 12);
				}
				total = total > n + left ? total - n : left;
				parts[i] = digits(r, n, n);
			}
		}
		if (k && (edge || r.chance(3, 4))) { // put control digits
			std::wstring run;
			size_t last = SIZE_MAX;
			for (const char* x = k->checks;; x++) {
				if (*x == ',' || !*x) {
					if (last != SIZE_MAX) {
						run.pop_back();
						parts[last].back() = control11(run);
					}
					run.clear();
					last = SIZE_MAX;
					if (!*x) break;
				}
				else if (static_cast<size_t>(*x - '1') < parts.size())
					run += parts[last = static_cast<size_t>(*x - '1')];
			}
		}
		std::wstring s = L"SI" + mod;
		if (r.coin()) s += L' ';
		for (size_t i = 0; i < parts.size(); i++) s += (i ? L"-" : L"") + parts[i];
		if (r.chance(1, edge ? 8 : 3)) s = damaged(r, s);
		if (r.chance(1, 6)) s = lower_some(r, s);
		size_t start;
		auto w = around(r, s, start);
		Probe<F> q(c, w, start, bare<F>(w, r));
		Chars n(w, q.flags);
		n.blanks_too = r.chance(3, 4);

		Piece m, part[3];
		std::wstring mm;
		bool valid = false;
		[&] {
			if (n.up(start) != L'S' || n.up(start + 1) != L'I' || !n.dig(start + 2) || !n.dig(start + 3)) return;
			mm = w.substr(start + 2, 2);
			m = Piece(start, start + 4);
			valid = true;
			if (mm == L"99") return;
			std::vector<std::wstring> got;
			size_t i = n.space(start + 4) ? start + 5 : start + 4;
			for (size_t j = 0; j < 3; j++) {
				if (j) { if (n.at(i) != L'-') break; i++; }
				size_t e = n.digs(i);
				if (e == i) break;
				part[j] = Piece(i, e);
				got.push_back(w.substr(i, e - i));
				m.to = i = e;
			}
			valid = si_valid(mm, got);
		}();
		auto p = kit::si_reference<F>(n.blanks_too);
		q.run(*p);
		if (q.whole("SI reference", m, p->interval)) {
			text_is(q, "model", wide(p->model), mm);
			q.expect("part", "part 1", p->part1.interval, part[0]);
			q.expect("part", "part 2", p->part2.interval, part[1]);
			q.expect("part", "part 3", p->part3.interval, part[2]);
			valid_is(q, "SI reference", p->is_valid, valid);
		}
		else if (!m.on)
			VH_CHECK(c, !p->is_valid, "validity", "%s: no reference, but is_valid", q.where().c_str());
	});
}
VH_MAIN
