// D01: vector_queue against std::deque, with elements that count their lifetimes.
#include "vh.hpp"
#include <stdex/vector_queue.hpp>

static int64_t g_live = 0;
static int g_throw_in = -1; // Copy that throws
struct Obj
{
	uint32_t magic = 0x600dc0de;
	uint64_t v = 0;
	std::unique_ptr<uint64_t> heap{ new uint64_t(0) }; // Leak and double-release bait
	Obj() { g_live++; }
	explicit Obj(uint64_t x) : v(x), heap(new uint64_t(x)) { g_live++; }
	Obj(const Obj& o) : v(o.v), heap(o.heap ? new uint64_t(*o.heap) : nullptr) { g_live++; }
	Obj(Obj&& o) : v(o.v), heap(std::move(o.heap)) { o.v = ~0ull; g_live++; }
	Obj& operator=(const Obj& o)
	{
		if (g_throw_in >= 0 && g_throw_in-- == 0) throw std::runtime_error("copy");
		v = o.v;
		auto h = std::unique_ptr<uint64_t>(o.heap ? new uint64_t(*o.heap) : nullptr);
		heap = std::move(h);
		return *this;
	}
	Obj& operator=(Obj&& o) { if (this != &o) { v = o.v; heap = std::move(o.heap); o.v = ~0ull; } return *this; }
	~Obj() { if (magic != 0x600dc0de) abort(); magic = 0xdead; g_live--; }
	bool operator==(const Obj& o) const { return magic == 0x600dc0de && v == o.v && heap && *heap == v; }
};
static Obj make(const Obj*, uint64_t n) { return Obj(n); }
static int make(const int*, uint64_t n) { return static_cast<int>(n); }
static std::string make(const std::string*, uint64_t n) { return std::to_string(n) + (n % 3 ? "" : std::string(40, 'x')); }

template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::invalid_argument&) { return true; } }

template <class T>
static void compare(vh::Case& c, const stdex::vector_queue<T>& q, const std::deque<T>& m, size_t cap, const char* op)
{
	VH_CHECK(c, q.size() == m.size() && q.empty() == m.empty() && q.capacity() == cap, "queue-size", "after %s: size %zu of %zu, %zu of %zu expected", op, q.size(), q.capacity(), m.size(), cap);
	if (q.size() != m.size()) return;
	auto& w = const_cast<stdex::vector_queue<T>&>(q);
	for (size_t i = 0; i < m.size(); i++) {
		if (!(q[i] == m[i]) || !(q.at(i) == m[i]) || !(w[i] == m[i]) || !(w.at(i) == m[i])) { c.fail("queue-element", "after %s: element %zu of %zu differs (capacity %zu)", op, i, m.size(), cap); return; }
		size_t a = q.abs(i);
		VH_CHECK(c, a < cap && &q.at_abs(a) == &q[i] && &w.at_abs(a) == &w[i], "queue-absolute", "absolute position %zu of element %zu", a, i);
	}
	if (m.empty())
		VH_CHECK(c, throws([&] { q.front(); }) && throws([&] { q.back(); }) && throws([&] { w.front(); }) && throws([&] { w.back(); }) && throws([&] { q.tail(); }) && throws([&] { w.pop_back(); }) && throws([&] { w.pop_front(); }), "queue-empty-access", "access to an empty queue not rejected");
	else
		VH_CHECK(c, q.front() == m.front() && q.back() == m.back() && w.front() == m.front() && w.back() == m.back() && &q.at_abs(q.head()) == &q.front() && &q.at_abs(q.tail()) == &q.back(), "queue-ends", "after %s: ends differ", op);
	VH_CHECK(c, throws([&] { q[m.size()]; }) && throws([&] { q.at(m.size()); }) && throws([&] { w[m.size()]; }) && throws([&] { w.at(m.size()); }) && throws([&] { q[SIZE_MAX]; }) && throws([&] { w.at(SIZE_MAX); }) && throws([&] { q.at_abs(cap); }) && throws([&] { w.at_abs(cap); }), "queue-bounds", "access past the end not rejected");
}

template <class T>
static void history(vh::Case& c)
{
	using Q = stdex::vector_queue<T>;
	auto& r = c.rng;
	int64_t base = g_live;
	uint64_t sg = 0, id = 0, displaced = 0;
	{
		struct S { Q q; std::deque<T> m; size_t cap; bool alive = true; }; // Moved-from is a queue there is no room in.
		std::vector<std::unique_ptr<S>> qs;
		auto add = [&](size_t cap) { qs.emplace_back(new S{ Q(cap), {}, cap }); };
		size_t cap = r.chance(1, 8) ? 1 : 1 + r.below(r.coin() ? 6 : 40);
		add(cap);
		for (unsigned i = 0, n = 10 + static_cast<unsigned>(r.below(100)); i < n; i++) {
			auto& s = *qs[r.below(qs.size())];
			const char* op = "?";
			unsigned k = static_cast<unsigned>(r.below(24));
			if (!s.alive && (k < 9 || (k > 14 && k < 18 && !r.chance(1, 4)))) k = 20;
			switch (k) {
			case 0: case 1: case 2: case 3: case 4: {
				op = "push_back";
				T v = make(static_cast<T*>(nullptr), ++id);
				if (std::is_same<T, Obj>::value && r.chance(1, 8)) { // An element that cannot be copied is not added
					op = "failed push_back";
					bool thrown = false;
					g_throw_in = 0;
					try { s.q.push_back(v); } catch (const std::runtime_error&) { thrown = true; }
					g_throw_in = -1;
					VH_CHECK(c, thrown, "queue-copy-throw", "exception of an element lost");
					break;
				}
				size_t pos;
				if (r.coin()) pos = s.q.push_back(v);
				else { T t = v; pos = s.q.push_back(std::move(t)); }
				if (s.m.size() == s.cap) { s.m.pop_front(); displaced++; }
				s.m.push_back(v);
				VH_CHECK(c, pos == s.q.tail(), "queue-position", "push_back() returned %zu, tail is %zu", pos, s.q.tail());
				break;
			}
			case 5: case 6: case 7: case 8: {
				op = "push_front";
				T v = make(static_cast<T*>(nullptr), ++id);
				if (std::is_same<T, Obj>::value && r.chance(1, 8)) { // An element that cannot be copied is not added
					op = "failed push_front";
					bool thrown = false;
					g_throw_in = 0;
					try { s.q.push_front(v); } catch (const std::runtime_error&) { thrown = true; }
					g_throw_in = -1;
					VH_CHECK(c, thrown, "queue-copy-throw", "exception of an element lost");
					break;
				}
				size_t pos;
				if (r.coin()) pos = s.q.push_front(v);
				else { T t = v; pos = s.q.push_front(std::move(t)); }
				if (s.m.size() == s.cap) { s.m.pop_back(); displaced++; }
				s.m.push_front(v);
				VH_CHECK(c, pos == s.q.head(), "queue-position", "push_front() returned %zu, head is %zu", pos, s.q.head());
				break;
			}
			case 9: case 10: case 11: op = "pop_front"; if (!s.m.empty()) { s.q.pop_front(); s.m.pop_front(); } break;
			case 12: case 13: op = "pop_back"; if (!s.m.empty()) { s.q.pop_back(); s.m.pop_back(); } break;
			case 14: op = "clear"; if (r.chance(1, 4)) { s.q.clear(); s.m.clear(); } break;
			case 15: op = "modify"; if (!s.m.empty()) { size_t j = r.below(s.m.size()); T v = make(static_cast<T*>(nullptr), ++id); s.q[j] = v; s.m[j] = v; } break;
			case 16:
				op = "copy";
				if (std::is_same<T, Obj>::value && !s.m.empty() && r.chance(1, 4)) {
					op = "failed copy";
					bool thrown = false;
					g_throw_in = static_cast<int>(r.below(s.m.size()));
					try { Q x(s.q); } catch (const std::runtime_error&) { thrown = true; }
					g_throw_in = -1;
					VH_CHECK(c, thrown, "queue-copy-throw", "exception of an element lost");
					break;
				}
				if (qs.size() < 4) { qs.emplace_back(new S{ Q(s.q), s.m, s.cap, s.alive }); } break;
			case 17:
				op = "move";
				if (qs.size() < 4) {
					qs.emplace_back(new S{ Q(std::move(s.q)), s.m, s.cap, s.alive });
					s.alive = false; s.cap = 0; s.m.clear();
					VH_CHECK(c, s.q.empty() && s.q.size() == 0, "queue-moved-from", "a queue moved from is not empty");
				}
				break;
			case 18: case 20: {
				op = "copy-assign";
				auto& t = *qs[r.below(qs.size())];
				bool thrown = false;
				if (std::is_same<T, Obj>::value && r.chance(1, 4) && !t.m.empty() && &t != &s && s.alive) {
					g_throw_in = static_cast<int>(r.below(t.m.size()));
					try { s.q = t.q; } catch (const std::runtime_error&) { thrown = true; }
					g_throw_in = -1;
					VH_CHECK(c, thrown, "queue-copy-throw", "exception of an element lost");
					op = "failed copy-assign";
				}
				else s.q = t.q;
				if (!thrown) { s.m = t.m; s.cap = t.cap; s.alive = t.alive; }
				break;
			}
			case 19: {
				op = "move-assign";
				auto& t = *qs[r.below(qs.size())];
				s.q = std::move(t.q);
				if (&t != &s) { s.m = std::move(t.m); s.cap = t.cap; s.alive = t.alive; t.alive = false; t.cap = 0; t.m.clear(); VH_CHECK(c, t.q.empty(), "queue-moved-from", "a queue moved from is not empty"); }
				break;
			}
			case 21: op = "destroy"; if (qs.size() > 1) { std::swap(qs[r.below(qs.size())], qs.back()); qs.pop_back(); } break;
			case 22: op = "new"; if (qs.size() < 3) add(1 + r.below(20)); break;
			default: { // Push one of its own elements
				op = "self-push";
				if (!s.alive || s.m.empty()) break;
				size_t j = r.below(s.m.size());
				T v = s.m[j];
				if (r.coin()) { s.q.push_back(s.q[j]); if (s.m.size() == s.cap) s.m.pop_front(); s.m.push_back(v); }
				else { s.q.push_front(s.q[j]); if (s.m.size() == s.cap) s.m.pop_back(); s.m.push_front(v); }
			}
			}
			sg = vh::mix(sg ^ k ^ (qs.front()->m.size() << 8));
			for (auto& x : qs) compare(c, x->q, x->m, x->cap, op);
			if (std::is_same<T, Obj>::value) {
				int64_t want = 0;
				for (auto& x : qs) want += static_cast<int64_t>(x->cap) + static_cast<int64_t>(x->m.size());
				VH_CHECK(c, g_live - base == want, "queue-lifetime", "after %s: %lld objects alive, %lld expected", op, (long long)(g_live - base), (long long)want);
			}
			if (c.failed) return;
		}
	}
	VH_CHECK(c, g_live == base, "queue-leak", "%lld objects left", (long long)(g_live - base));
	c.count("displaced", displaced);
	if (id > 4) c.sig(sg);
}

VH_GROUP(histories, 6000, 200000, 2000)
{
	switch (c.index % 3) {
	case 0: history<Obj>(c); break;
	case 1: history<int>(c); break;
	default: history<std::string>(c); break;
	}
}

// Elements that can be moved only.
VH_GROUP(move_only, 1000, 20000, 300)
{
	auto& r = c.rng;
	using P = std::unique_ptr<uint64_t>;
	size_t cap = 1 + r.below(9);
	stdex::vector_queue<P> q(cap);
	std::deque<uint64_t> m;
	uint64_t sg = cap;
	for (unsigned i = 0, n = 10 + static_cast<unsigned>(r.below(50)); i < n; i++) {
		switch (r.below(5)) {
		case 0: case 1: q.push_back(P(new uint64_t(i))); if (m.size() == cap) m.pop_front(); m.push_back(i); break;
		case 2: q.push_front(P(new uint64_t(i))); if (m.size() == cap) m.pop_back(); m.push_front(i); break;
		case 3: if (!m.empty()) { P p = std::move(q.front()); q.pop_front(); VH_CHECK(c, p && *p == m.front(), "queue-element", "front differs"); m.pop_front(); } break;
		default: if (!m.empty()) { P p = std::move(q.back()); q.pop_back(); VH_CHECK(c, p && *p == m.back(), "queue-element", "back differs"); m.pop_back(); }
		}
		VH_CHECK(c, q.size() == m.size(), "queue-size", "size %zu, %zu expected", q.size(), m.size());
		for (size_t j = 0; j < m.size() && !c.failed; j++) VH_CHECK(c, q[j] && *q[j] == m[j], "queue-element", "element %zu differs", j);
		sg = vh::mix(sg ^ m.size());
		if (c.failed) return;
	}
	c.sig(sg);
}

VH_MAIN
