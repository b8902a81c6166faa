// Operations on objects of their own, run on several threads at once and then alone: the results have to be the same,
// and ThreadSanitizer must see nothing shared.
#pragma once
#include "vh.hpp"
#include <locale>
#include <typeinfo>
#ifdef APART_OOM
#include "oom.hpp"
#endif

namespace apart
{
	using vh::Rng;
	using Op = uint64_t (*)(Rng&);
	struct Entry { const char* name; Op op; };
	inline std::vector<Entry>& ops() { static std::vector<Entry> v; return v; }
	struct Reg { Reg(const char* n, Op o) { ops().push_back({ n, o }); } };

	inline thread_local uint64_t told = 0, asked = 0; // Failures an operation was told of, and where
	inline void tell(uint64_t what) { asked++; if (what) told = vh::mix(told ^ asked ^ what << 32); }

	// Digest of what an operation gave
	struct Sum
	{
		uint64_t h = 0x1234;
		void problem(const std::exception& e) { tell(dynamic_cast<const std::bad_alloc*>(&e) ? 2 : 1); for (auto p = e.what(); *p; p++) num(static_cast<uint8_t>(*p)); }
		void num(uint64_t v) { h = vh::mix(h ^ v); }
		void raw(const void* p, size_t n) { h = vh::mix(vh::hash_bytes(p, n, h) ^ n); }
		template <class T> void str(const std::basic_string<T>& s) { raw(s.data(), s.size() * sizeof(T)); }
		template <class T> void vec(const std::vector<T>& s) { raw(s.data(), s.size() * sizeof(T)); }
	};

	// What ran out of memory is tried again with the same objects, and has to give what it gives otherwise.
	inline thread_local uint64_t retried = 0;
	inline thread_local std::vector<std::pair<uint64_t, uint64_t>>* spans = nullptr; // Allocations made inside
	template <class F> auto insist(F f)
	{
		struct Span
		{
#ifdef APART_OOM
			uint64_t from = oom::made;
			~Span() { if (spans && oom::made > from && spans->size() < 64) spans->push_back({ from, oom::made }); }
#endif
		} span;
		(void)span;
		for (unsigned i = 0; ; i++)
			try { return f(); }
			catch (const std::bad_alloc&) {
				retried++;
				if (i > 20) throw;
			}
	}

	inline uint64_t run1(const Entry& e, uint64_t seed)
	{
		Rng r(seed);
		try { return e.op(r); }
		catch (const std::exception& x) { return vh::hash_str(x.what(), vh::hash_str(typeid(x).name())); }
	}

	// The C++ library fills the translation tables of its classic facet lazily and unsynchronised: filled here.
	inline int warm = [] {
		auto& f = std::use_facet<std::ctype<char>>(std::locale::classic());
		char b[256], o[256];
		for (int i = 0; i < 256; i++) b[i] = static_cast<char>(i);
		f.widen(b, b + 256, o);
		f.narrow(b, b + 256, '?', o);
		for (int i = 0; i < 256; i++) { f.widen(static_cast<char>(i)); f.narrow(static_cast<char>(i), '?'); }
		return 0;
	}();

#ifdef APART_OOM
	// One operation with an allocation failing at every point in turn (at random ones when there are many).
	inline void out_of_memory(vh::Case& c)
	{
		auto& r = c.rng;
		auto& all = ops();
		auto& e = all[static_cast<size_t>(c.index % all.size())];
		uint64_t seed = r.next();
		run1(e, seed); // What is built once
		told = asked = 0;
		std::vector<std::pair<uint64_t, uint64_t>> inside;
		inside.reserve(64); // Not to allocate inside of the operation
		spans = &inside;
		auto made = oom::made;
		uint64_t want = run1(e, seed), tells = told;
		spans = nullptr;
		uint64_t n = oom::made - made, thrown = 0, none = 0, state = 0;
		for (uint64_t i = 0, m = std::min<uint64_t>(n, 24); i < m; i++) {
			uint64_t at = n <= 24 ? i : r.below(n);
			if (n > 24 && !inside.empty() && r.chance(2, 3)) { auto& p = r.pick(inside); at = p.first - made + r.below(p.second - p.first); }
			bool threw = false;
			uint64_t got = 0;
			told = asked = 0;
			auto failed = oom::failed;
			{
				Rng q(seed);
				oom::left = static_cast<int64_t>(at);
				try { got = e.op(q); }
				catch (const std::exception&) { threw = true; }
				oom::left = -1;
			}
			if (oom::failed == failed) none++; // The operation takes another way now
			else if (threw) thrown++;
			else if (got != want) {
				VH_CHECK(c, told != tells, std::string("oom:silent:") + e.name, "%s (seed %llx) gives another result with allocation %llu failed, and neither a state nor an exception tells", e.name, static_cast<unsigned long long>(seed), static_cast<unsigned long long>(at));
				state++;
			}
			else thrown++; // Got over it
		}
		uint64_t again = run1(e, seed);
		VH_CHECK(c, again == want, std::string("oom:") + e.name, "%s (seed %llx) gives another result after it ran out of memory", e.name, static_cast<unsigned long long>(seed));
		c.count("failed allocations", thrown + state);
		c.count("failures told by state", state);
		c.count("operations tried again with the same objects", retried), retried = 0;
		c.count(e.name);
		if (n) c.sig(vh::mix(seed ^ vh::hash_str(e.name)));
	}
#endif

	// An operation among ops(); the first round takes them in turns so that the first use ever of each is one of many at once.
	inline void together(vh::Case& c, size_t at_once = 3)
	{
		auto& r = c.rng;
		auto& all = ops();
		struct Step { const Entry* e; uint64_t seed, got, wait; };
		size_t n = 2 + static_cast<size_t>(r.below(at_once));
		std::vector<const Entry*> picks{ &all[c.index < all.size() ? static_cast<size_t>(c.index) : static_cast<size_t>(r.below(all.size()))] };
		if (c.index >= all.size()) while (r.chance(1, 3)) picks.push_back(&r.pick(all));
		size_t steps = 1 + static_cast<size_t>(r.below(6));
		std::vector<std::vector<Step>> t(n);
		uint64_t sg = 0;
		for (auto& l : t) {
			for (size_t i = 0; i < steps; i++) {
				Step s{ r.pick(picks), r.next(), 0, r.coin() ? 0 : r.below(200) };
				l.push_back(s);
				sg = vh::mix(sg ^ s.seed);
			}
		}
		std::atomic<size_t> ready{ 0 };
		std::atomic<size_t> inside{ 0 }, peak{ 0 };
		std::vector<std::thread> w;
		for (auto& l : t)
			w.emplace_back([&l, &ready, &inside, &peak, n] {
				ready.fetch_add(1, std::memory_order_relaxed);
				while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
				for (auto& s : l) {
					for (volatile uint64_t i = s.wait; i; i = i - 1);
					// Relaxed, so that the monitor itself orders nothing.
					size_t k = inside.fetch_add(1, std::memory_order_relaxed) + 1, p = peak.load(std::memory_order_relaxed);
					while (p < k && !peak.compare_exchange_weak(p, k, std::memory_order_relaxed));
					s.got = run1(*s.e, s.seed);
					inside.fetch_sub(1, std::memory_order_relaxed);
				}
			});
		for (auto& x : w) x.join();
		if (peak > 1) c.count("cases with operations at the same time");
		// Alone and the other way around
		for (size_t k = n; k--;)
			for (size_t i = steps; i--;) {
				auto& s = t[k][i];
				uint64_t v = run1(*s.e, s.seed);
				VH_CHECK(c, v == s.got, std::string("apart:") + s.e->name, "%s (seed %llx) gave another result on one of %zu threads than alone", s.e->name, static_cast<unsigned long long>(s.seed), n);
				c.count(s.e->name);
			}
		if (peak > 1) c.sig(sg);
		if (c.index < 2) c.sample(vh::fmt("%s x %zu on %zu threads", picks[0]->name, steps, n));
	}
}

#define APART(name) \
	static uint64_t op_##name(vh::Rng&); \
	static apart::Reg opreg_##name(#name, op_##name); \
	static uint64_t op_##name(vh::Rng& r)
