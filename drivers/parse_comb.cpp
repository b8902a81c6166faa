// P08: random programs of combinators against an interpreter of the combination.
#include "probe.hpp"

enum Kind { k_cu, k_set, k_str, k_any, k_space, k_punct, k_spop, k_noop, k_bol, k_eol, k_leaves, k_strs = k_leaves, k_iter, k_seq, k_branch, k_perm };

static const size_t no = SIZE_MAX;
static bool is_space(wchar_t ch) { return ch == L' ' || (9 <= ch && ch <= 13); }
static bool is_break(wchar_t ch) { return ch == L'\n' || ch == L'\r'; }
static bool is_punct(wchar_t ch) { return ch < 0x7f && ch > 0x20 && !(ch >= L'0' && ch <= L'9') && !((ch | 0x20) >= L'a' && (ch | 0x20) <= L'z'); }
static wchar_t low(wchar_t ch) { return ch >= L'A' && ch <= L'Z' ? ch | 0x20 : ch; }

template <class F>
struct Node
{
	using T = typename F::T;
	Kind kind;
	bool invert = false, greedy = true;
	std::wstring str;
	std::vector<std::wstring> strs;
	size_t min = 0, max = SIZE_MAX;
	std::vector<std::unique_ptr<Node>> kids;
	P<T> parser;

	// What the last evaluation that succeeded found
	mutable Piece piece;
	mutable size_t hit = no;
};

// The characters text has: evaluation knows nothing about how they are encoded.
struct Eval
{
	const std::wstring& s;
	int flags;
	size_t steps = 0;

	bool eq(wchar_t a, wchar_t b) const { return flags & sp::match_case_insensitive ? low(a) == low(b) : a == b; }
	size_t text(const std::wstring& t, size_t i) const
	{
		for (size_t k = 0; k < t.size(); k++) if (i + k >= s.size() || !eq(s[i + k], t[k])) return no;
		return i + t.size();
	}
	template <class F> size_t run(const Node<F>& n, size_t i)
	{
		n.piece = Piece();
		n.hit = no;
		size_t e = eval(n, i);
		if (e != no) n.piece = Piece(i, e);
		else n.hit = no;
		return e;
	}
	template <class F> size_t eval(const Node<F>& n, size_t i)
	{
		steps++;
		const bool more = i < s.size();
		const wchar_t ch = more ? s[i] : 0;
		auto one = [&](bool r) { return more && r != n.invert ? i + 1 : no; };
		const bool multi = flags & sp::match_multiline;
		switch (n.kind) {
		case k_cu: return one(eq(ch, n.str[0]));
		case k_set: {
			size_t k = 0;
			while (k < n.str.size() && !eq(ch, n.str[k])) k++;
			if (more && k < n.str.size()) n.hit = k;
			return one(k < n.str.size());
		}
		case k_str: return text(n.str, i);
		case k_any: return more ? i + 1 : no;
		case k_space: return one((multi || !is_break(ch)) && is_space(ch));
		case k_punct: return one(is_punct(ch));
		case k_spop: return one((multi || !is_break(ch)) && (is_space(ch) || is_punct(ch)));
		case k_noop: return more ? i : no;
		case k_bol: return (i == 0 || is_break(s[i - 1])) != n.invert ? i : no;
		case k_eol: return (!more || is_break(ch)) != n.invert ? i : no;
		case k_strs:
			for (size_t k = 0; k < n.strs.size(); k++) {
				size_t e = text(n.strs[k], i);
				if (e != no) { n.hit = k; return e; }
			}
			return no;
		case k_iter: {
			size_t e = i;
			for (size_t k = 0; k < n.max && (n.greedy || k < n.min); k++) {
				size_t to = run(*n.kids[0], e);
				if (to == no) return k < n.min ? no : e;
				if (to == e) break;
				e = to;
			}
			return e;
		}
		case k_seq:
			for (auto& k : n.kids) {
				i = run(*k, i);
				if (i == no) break;
			}
			return i;
		case k_branch: {
			size_t e = no;
			for (size_t k = 0; k < n.kids.size(); k++) {
				if (e != no) { n.kids[k]->piece = Piece(); continue; }
				e = run(*n.kids[k], i);
				if (e != no) n.hit = k;
			}
			return e;
		}
		default: {
			std::vector<bool> used(n.kids.size());
			for (auto& k : n.kids) k->piece = Piece();
			return perm(n, used, n.kids.size(), i);
		}
		}
	}
	template <class F> size_t perm(const Node<F>& n, std::vector<bool>& used, size_t left, size_t i)
	{
		if (!left) return i;
		for (size_t k = 0; k < n.kids.size(); k++) {
			if (used[k]) continue;
			size_t e = run(*n.kids[k], i);
			if (e == no) continue;
			Piece here = n.kids[k]->piece;
			used[k] = true;
			e = perm(n, used, left - 1, e);
			if (e != no) { n.kids[k]->piece = here; return e; }
			used[k] = false;
		}
		return no;
	}
};

template <class F> static std::wstring letters(Rng& r, size_t lo, size_t hi)
{
	static const wchar_t abc[] = L"aabbABc .,\n1&;\u20ac";
	std::wstring s;
	for (size_t n = static_cast<size_t>(r.range(static_cast<int64_t>(lo), static_cast<int64_t>(hi))); n; --n) s += abc[r.below(std::size(abc) - (std::is_same_v<F, Char> ? 2 : 1))];
	return s;
}

template <class F> static P<typename F::T> strings(const std::vector<std::wstring>& v, Rng& r)
{
	using T = typename F::T;
	using X = std::conditional_t<F::sgml, sp::sgml_string, sp::basic_string<T>>;
	using B = sp::basic_string_branch<T, X>;
	if (v.size() == 3 && r.coin()) {
		auto a = F::raw(v[0]), b = F::raw(v[1]), c = F::raw(v[2]);
		return r.coin() ? std::make_shared<B>(a.c_str(), b.c_str(), c.c_str(), static_cast<const T*>(nullptr)) : std::make_shared<B>(std::locale(), a.c_str(), b.c_str(), c.c_str(), static_cast<const T*>(nullptr));
	}
	// Strings terminated each; the list ends with its size, or with an empty string before.
	std::basic_string<T> z;
	for (auto& i : v) { z += F::raw(i); z += T(0); }
	if (r.coin()) z.pop_back(); // The last one ends with the list.
	else if (r.coin()) { z += T(0); z += F::raw(L"a"); z += T(0); }
	Exact<T> x(z);
	return std::make_shared<B>(x.data(), z.size());
}

template <class F> static std::unique_ptr<Node<F>> program(Rng& r, unsigned depth)
{
	using T = typename F::T;
	auto n = std::make_unique<Node<F>>();
	n->kind = static_cast<Kind>(depth ? (r.chance(1, 4) ? r.below(k_leaves) : k_leaves + r.below(5)) : r.below(k_leaves + 1));
	if (!depth && r.coin()) n->kind = r.one({ k_cu, k_str, k_set });
	n->invert = r.chance(1, 4);
	auto kids = [&](size_t lo, size_t hi) {
		std::vector<P<T>> v;
		for (size_t k = static_cast<size_t>(r.range(static_cast<int64_t>(lo), static_cast<int64_t>(hi))); k; --k) {
			n->kids.push_back(program<F>(r, depth - 1));
			v.push_back(n->kids.back()->parser);
		}
		return v;
	};
	auto build = [&](auto* x) {
		using X = std::remove_pointer_t<decltype(x)>;
		auto v = kids(n->kind == k_perm ? 1 : 0, n->kind == k_perm ? 4 : 3);
		if (r.coin()) return P<T>(std::make_shared<X>(v.data(), v.size()));
		return P<T>(std::make_shared<X>(std::move(v)));
	};
	switch (n->kind) {
	case k_cu: n->str = letters<F>(r, 1, 1); n->parser = F::cu(n->str[0], n->invert); break;
	case k_set: n->str = letters<F>(r, 1, 4); n->parser = F::set(n->str, n->invert); break;
	case k_str: n->str = letters<F>(r, r.chance(1, 8) ? 0 : 1, 3); n->parser = F::str(n->str); break;
	case k_any: n->parser = F::any(); break;
	case k_space: n->parser = F::space(n->invert); break;
	case k_punct: n->parser = F::punct(n->invert); break;
	case k_spop: n->parser = F::spop(n->invert); break;
	case k_noop: n->parser = std::make_shared<sp::basic_noop<T>>(); break;
	case k_bol: n->parser = std::make_shared<sp::basic_bol<T>>(n->invert); break;
	case k_eol: n->parser = std::make_shared<sp::basic_eol<T>>(n->invert); break;
	case k_strs:
		for (size_t k = r.range(1, 4); k; --k) n->strs.push_back(letters<F>(r, 1, 3));
		n->parser = strings<F>(n->strs, r);
		break;
	case k_iter: {
		auto v = kids(1, 1);
		n->min = static_cast<size_t>(r.below(4));
		n->max = r.coin() ? SIZE_MAX : n->min + static_cast<size_t>(r.below(3));
		n->greedy = r.chance(3, 4);
		n->parser = std::make_shared<sp::basic_iterations<T>>(v[0], n->min, n->max, n->greedy);
		break;
	}
	case k_seq: n->parser = build(static_cast<sp::basic_sequence<T>*>(nullptr)); break;
	case k_branch: n->parser = build(static_cast<sp::basic_branch<T>*>(nullptr)); break;
	default: n->parser = build(static_cast<sp::basic_permutation<T>*>(nullptr));
	}
	return n;
}
template <class F> static std::string show(const Node<F>& n)
{
	static const char* names[] = { "cu", "set", "str", "any", "space", "punct", "spop", "noop", "bol", "eol", "strs", "iter", "seq", "branch", "perm" };
	std::string s = names[n.kind];
	if (n.invert) s += "!";
	if (n.kind == k_cu || n.kind == k_set || n.kind == k_str) s += vh::show(n.str);
	for (auto& i : n.strs) s += vh::show(i);
	if (n.kind == k_iter) s += fmt("%zu..%zd%s", n.min, static_cast<ssize_t>(n.max), n.greedy ? "" : "?");
	if (!n.kids.empty()) {
		s += "(";
		for (auto& k : n.kids) s += show(*k) + " ";
		s.back() = ')';
	}
	return s;
}

// Parts of what matched, where the combination says which they are
template <class F> static void parts(Probe<F>& q, const Node<F>& n, const std::string& what)
{
	using T = typename F::T;
	VH_CHECK(q.c, q.same(n.parser->interval, n.piece), "part", "%s of %s: %s is %s, must be %s", q.where().c_str(), what.c_str(), show(n).c_str(), iv(n.parser->interval).c_str(), q.want(n.piece).c_str());
	if (n.kind == k_branch || n.kind == k_strs) {
		size_t h = static_cast<sp::basic_branch<T>*>(n.parser.get())->hit_offset;
		VH_CHECK(q.c, !n.piece.on || h == n.hit, "alternative", "%s of %s: alternative of %s is %zd, must be %zd", q.where().c_str(), what.c_str(), show(n).c_str(), static_cast<ssize_t>(h), static_cast<ssize_t>(n.hit));
	}
	if (n.kind == k_set && n.piece.on && !n.invert) {
		size_t h = static_cast<sp::basic_set<T>*>(n.parser.get())->hit_offset;
		VH_CHECK(q.c, h == n.hit, "member", "%s of %s: member of %s is %zd, must be %zd", q.where().c_str(), what.c_str(), show(n).c_str(), static_cast<ssize_t>(h), static_cast<ssize_t>(n.hit));
	}
	if (n.piece.on && (n.kind == k_seq || n.kind == k_branch))
		for (auto& k : n.kids) {
			if (k->piece.on) parts(q, *k, what);
			else VH_CHECK(q.c, !k->parser->interval, "part", "%s of %s: %s has not matched, but is %s", q.where().c_str(), what.c_str(), show(*k).c_str(), iv(k->parser->interval).c_str());
		}
	if (n.piece.on && n.kind == k_perm)
		for (auto& k : n.kids)
			VH_CHECK(q.c, q.same(k->parser->interval, k->piece), "part", "%s of %s: %s is %s, must be %s", q.where().c_str(), what.c_str(), show(*k).c_str(), iv(k->parser->interval).c_str(), q.want(k->piece).c_str());
}

VH_GROUP(programs, 60000, 1500000, 15000)
{
	each(c, [&](auto f) {
		using F = decltype(f);
		auto& r = c.rng;
		auto n = program<F>(r, static_cast<unsigned>(r.range(0, 3)));
		const auto what = show(*n);
		for (size_t k = 8; k && !c.failed; --k) {
			auto w = letters<F>(r, 0, 9);
			size_t start = static_cast<size_t>(r.below(w.size() + 1));
			if (r.coin()) start = 0;
			Probe<F> q(c, w, start, F::enc(w, r));
			Eval e{ w, q.flags };
			size_t to = e.run(*n, start);
			if (e.steps > 100000) return;
			q.run(*n->parser);
			VH_CHECK(c, q.ok == (to != no), "match", "%s of %s, flags %d: match is %d, must be %d", q.where().c_str(), what.c_str(), q.flags, q.ok, to != no);
			VH_CHECK(c, q.same(n->parser->interval, n->piece), "extent", "%s of %s, flags %d: %s, must be %s", q.where().c_str(), what.c_str(), q.flags, iv(n->parser->interval).c_str(), q.want(n->piece).c_str());
			if (c.failed) return;
			c.count(q.ok ? "matches" : "non-matches");
			c.sig(hash_bytes(w.data(), w.size() * sizeof(wchar_t), hash_str(what, start * 4 + static_cast<size_t>(q.flags))));
			if (q.ok) parts(q, *n, what);
			else if (n->kind == k_branch || n->kind == k_strs)
				VH_CHECK(c, static_cast<sp::basic_branch<typename F::T>*>(n->parser.get())->hit_offset == no, "alternative", "%s of %s: no match, but there is an alternative", q.where().c_str(), what.c_str());
			if (r.chance(1, 4)) {
				size_t i = start, at = no;
				for (; i < w.size() && at == no; i++) if (e.run(*n, i) != no) at = i;
				bool found = n->parser->search(q.x.data(), q.t.pos[start], q.t.s.size(), q.flags);
				// In SGML, search also tries inside of entities.
				if (!F::sgml) VH_CHECK(c, found == (at != no) && (!found || n->parser->interval.start == q.t.pos[at]), "search", "%s of %s, flags %d: search is %d at %s, must be %d at %zu", q.where().c_str(), what.c_str(), q.flags, found, iv(n->parser->interval).c_str(), at != no, at);
			}
		}
		if (c.index < 6) c.sample(what);
	});
}

VH_MAIN
