// C05: progress indicators. Recorded calls at the host against an exact (128-bit) model of the scaling; the aggregate's host is
// deliberately unsynchronised, so that ThreadSanitizer sees calls made outside of the lock, and checks that reports come in order.
#include "vh.hpp"
#include <stdex/progress.hpp>

using i128 = __int128;

template <class T>
struct Rec : stdex::progress<T>
{
	std::vector<T> vals;
	std::vector<std::pair<T, T>> ranges;
	std::vector<std::string> texts;
	unsigned shows = 0, hides = 0;
	bool want_cancel = false;
	void set_text(const char* m) override { texts.push_back(m); }
	void set_range(T a, T b) override { ranges.push_back({ a, b }); }
	void set(T v) override { vals.push_back(v); }
	void show(bool s) override { (s ? shows : hides)++; }
	bool cancel() override { return want_cancel; }
};

template <class T>
static std::pair<T, T> rnd_range(vh::Rng& r)
{
	// Spans up to half of the type, so that sizes are representable.
	const i128 max = std::numeric_limits<T>::max(), min = std::numeric_limits<T>::min();
	i128 span;
	switch (r.below(6)) {
	case 0: span = static_cast<i128>(r.below(4)); break;
	case 1: span = static_cast<i128>(r.below(1000)); break;
	case 2: span = max / 2 - static_cast<i128>(r.below(1000)); break;
	case 3: span = static_cast<i128>(r.next() % (static_cast<uint64_t>(max) / 2)); break;
	default: span = static_cast<i128>((r.next() % (static_cast<uint64_t>(max) / 2)) >> r.below(sizeof(T) * 8 - 2));
	}
	i128 lo = std::is_signed<T>::value ? -(max / 2) : min, hi = max - span;
	if (std::is_signed<T>::value) hi = max / 2 - span;
	i128 start = r.coin() ? (r.coin() ? 0 : static_cast<i128>(r.below(1000))) : lo + static_cast<i128>(r.next()) % (hi - lo + 1);
	if (start > hi) start = hi;
	return { static_cast<T>(start), static_cast<T>(start + span) };
}

template <class T>
static T rnd_in(vh::Rng& r, std::pair<T, T> g)
{
	i128 n = static_cast<i128>(g.second) - g.first;
	switch (r.below(5)) {
	case 0: return g.first;
	case 1: return g.second;
	case 2: return static_cast<T>(g.first + n / 2);
	default: return static_cast<T>(g.first + static_cast<i128>(r.next()) % (n + 1));
	}
}

template <class T>
static void chain(vh::Case& c)
{
	auto& r = c.rng;
	Rec<T> rec;
	unsigned depth = 1 + static_cast<unsigned>(r.below(4));
	stdex::progress<T>* top = &rec;
	stdex::progress<T>* ref = top; // Replaced and restored by switchers
	std::deque<stdex::global_progress<T>> globals;
	std::vector<std::unique_ptr<stdex::progress_switcher<T>>> switchers;
	std::vector<stdex::global_progress<T>*> lv; // lv[0] reports to the host
	std::vector<stdex::progress<T>*> below{ top };
	bool use_switcher = r.coin();
	for (unsigned i = 0; i < depth; i++) {
		if (use_switcher) {
			switchers.emplace_back(new stdex::progress_switcher<T>(ref));
			VH_CHECK(c, ref == switchers.back().get(), "switcher-not-in-place", "level %u", i);
			lv.push_back(switchers.back().get());
		}
		else {
			if (r.coin()) globals.emplace_back(below.back());
			else { globals.emplace_back(); globals.back().attach(below.back()); }
			lv.push_back(&globals.back());
		}
		below.push_back(lv.back());
	}
	struct L { std::pair<T, T> global{ 0, 0 }, section{ 0, 0 }, local{ 0, 0 }; bool has_local = false; };
	std::vector<L> m(depth);
	size_t nr = 0, nv = 0, nt = 0;
	uint64_t sg = depth;
	int broken = -1; // Level detached
	auto reaches = [&](unsigned level) { return broken < 0 || static_cast<unsigned>(broken) > level; };
	// Every level first gets a range and a section, host first.
	auto do_global = [&](unsigned i, std::pair<T, T> g) {
		lv[i]->set_global_range(g.first, g.second);
		m[i].global = g;
		if (!reaches(i) && broken == static_cast<int>(i)) return;
		if (i == 0) {
			nr++;
			VH_CHECK(c, rec.ranges.size() == nr && rec.ranges.back() == g, "global-range", "range set at the outer level did not reach the host");
		}
		else { m[i - 1].local = g; m[i - 1].has_local = true; }
	};
	for (unsigned i = 0; i < depth; i++) {
		auto g = rnd_range<T>(r);
		if (i + 1 < depth || r.coin()) do_global(i, g);
		auto a = rnd_in<T>(r, g), b = rnd_in<T>(r, g);
		if (b < a) std::swap(a, b);
		if (r.chance(1, 3)) { a = g.first; b = g.second; }
		lv[i]->set_section_range(a, b);
		m[i].section = { a, b };
	}
	for (unsigned step = 0, n = 5 + static_cast<unsigned>(r.below(40)); step < n; step++) {
		unsigned leaf = static_cast<unsigned>(r.coin() ? depth - 1 : r.below(depth));
		auto leaf_model = [&](T v) {
			// What the host gets.
			i128 x = v;
			for (int i = static_cast<int>(leaf); i >= 0; i--) {
				if (broken == i) return std::optional<i128>();
				i128 size = m[i].has_local ? static_cast<i128>(m[i].local.second) - m[i].local.first : 0;
				if (size == 0) return std::optional<i128>();
				x = (x - m[i].local.first) * (static_cast<i128>(m[i].section.second) - m[i].section.first) / size + m[i].section.first;
			}
			return std::optional<i128>(x);
		};
		switch (r.below(10)) {
		case 0: {
			auto l = rnd_range<T>(r);
			lv[leaf]->set_range(l.first, l.second);
			m[leaf].local = l;
			m[leaf].has_local = true;
			VH_CHECK(c, rec.ranges.size() == nr, "local-range-leaked", "a local range reached the host");
			break;
		}
		case 1: {
			auto g = leaf ? m[leaf - 1].local : rnd_range<T>(r);
			if (leaf && !m[leaf - 1].has_local) break;
			auto a = rnd_in<T>(r, g), b = rnd_in<T>(r, g);
			if (b < a) std::swap(a, b);
			lv[leaf]->set_section_range(a, b);
			m[leaf].section = { a, b };
			break;
		}
		case 2: {
			rec.want_cancel = r.coin();
			bool got = lv[leaf]->cancel(), want = rec.want_cancel && reaches(leaf);
			VH_CHECK(c, got == want, "cancel", "level %u of %u sees %d, %d expected", leaf, depth, got, want);
			break;
		}
		case 3: {
			auto t = vh::fmt("t%u", step);
			lv[leaf]->set_text(t.c_str());
			lv[leaf]->show(step & 1);
			if (reaches(leaf)) nt++;
			VH_CHECK(c, rec.texts.size() == nt && (!reaches(leaf) || rec.texts.back() == t) && rec.shows + rec.hides == nt, "text", "text or visibility did not reach the host");
			break;
		}
		case 4:
			if (broken < 0 && !use_switcher && r.coin()) {
				broken = static_cast<int>(r.below(depth));
				auto k = lv[broken]->detach();
				VH_CHECK(c, k == below[broken], "detach-host", "detach() returned another host");
			}
			else if (broken >= 0) {
				lv[broken]->attach(below[broken]);
				broken = -1;
			}
			break;
		default: {
			if (!m[leaf].has_local) {
				auto l = rnd_range<T>(r);
				lv[leaf]->set_range(l.first, l.second);
				m[leaf].local = l;
				m[leaf].has_local = true;
			}
			T v = rnd_in<T>(r, m[leaf].local);
			// Values of the levels above must be within their local ranges, as the documentation requires.
			bool ok = true;
			i128 x = v;
			for (int i = static_cast<int>(leaf); i >= 0 && ok; i--) {
				if (x < m[i].local.first || x > m[i].local.second) ok = false;
				i128 size = static_cast<i128>(m[i].local.second) - m[i].local.first;
				if (size == 0) break;
				x = (x - m[i].local.first) * (static_cast<i128>(m[i].section.second) - m[i].section.first) / size + m[i].section.first;
			}
			if (!ok) break;
			auto want = leaf_model(v);
			lv[leaf]->set(v);
			if (want) nv++;
			VH_CHECK(c, rec.vals.size() == nv, "section-reports", "%zu values reported, %zu expected", rec.vals.size(), nv);
			if (want && rec.vals.size() == nv) {
				VH_CHECK(c, rec.vals.back() == static_cast<T>(*want), "section-scale", "level %u of %u, value %lld of [%lld, %lld] to section [%lld, %lld]: reported %lld, %lld expected", leaf, depth,
					(long long)v, (long long)m[leaf].local.first, (long long)m[leaf].local.second, (long long)m[leaf].section.first, (long long)m[leaf].section.second,
					(long long)rec.vals.back(), (long long)*want);
				VH_CHECK(c, m[0].section.first <= rec.vals.back() && rec.vals.back() <= m[0].section.second, "section-bound", "reported outside of the section");
				sg = vh::mix(sg ^ static_cast<uint64_t>(rec.vals.back()) ^ (static_cast<uint64_t>(v) << 1));
			}
		}
		}
		if (c.failed) return;
	}
	while (!switchers.empty()) {
		switchers.pop_back();
		VH_CHECK(c, ref == below[switchers.size()], "switcher-not-restored", "level %zu", switchers.size());
	}
	c.count("values", nv);
	if (nv) c.sig(sg);
}

VH_GROUP(sections, 6000, 200000, 2000)
{
	switch (c.index % 5) {
	case 0: chain<int>(c); break;
	case 1: chain<uint32_t>(c); break;
	case 2: chain<int64_t>(c); break;
	case 3: chain<size_t>(c); break;
	default: chain<int16_t>(c); break;
	}
}

// Single thread: every report is exact.
VH_GROUP(aggregate_model, 3000, 60000, 1000)
{
	auto& r = c.rng;
	using T = int64_t;
	Rec<T> a, b;
	Rec<T>* host = r.coin() ? &a : nullptr;
	size_t n = 1 + r.below(6);
	stdex::aggregate_progress<T> agg(n, host);
	std::vector<std::array<T, 3>> w(n, { 0, 0, 0 });
	auto sum = [&](int k) { T s = 0; for (auto& x : w) s += x[k]; return s; };
	if (host) VH_CHECK(c, host->ranges.size() == 1 && host->ranges[0] == std::make_pair(T(0), T(0)) && host->vals == std::vector<T>{ 0 }, "aggregate-initial", "initial report missing");
	uint64_t sg = n;
	for (unsigned i = 0, k = 5 + static_cast<unsigned>(r.below(50)); i < k; i++) {
		size_t j = r.below(n);
		size_t nr = host ? host->ranges.size() : 0, nv = host ? host->vals.size() : 0;
		switch (r.below(8)) {
		case 0: case 1: {
			T s = r.coin() ? 0 : r.range(-1000, 1000), e = s + static_cast<T>(r.next() >> (20 + r.below(40)));
			agg[j].set_range(s, e);
			w[j][0] = s; w[j][1] = e;
			if (host) VH_CHECK(c, host->ranges.size() == nr + 1 && host->ranges.back() == std::make_pair(sum(0), sum(1)), "aggregate-range", "range [%lld, %lld] reported, [%lld, %lld] expected",
				(long long)host->ranges.back().first, (long long)host->ranges.back().second, (long long)sum(0), (long long)sum(1));
			break;
		}
		case 2: {
			auto nh = r.below(3);
			if (nh == 0) {
				auto k2 = agg.detach();
				VH_CHECK(c, k2 == host, "aggregate-detach", "detach() returned another host");
				host = nullptr;
			}
			else {
				host = nh == 1 ? &a : &b;
				nr = host->ranges.size(), nv = host->vals.size();
				agg.attach(host);
				VH_CHECK(c, host->ranges.size() == nr + 1 && host->vals.size() == nv + 1 && host->ranges.back() == std::make_pair(sum(0), sum(1)) && host->vals.back() == sum(2),
					"aggregate-attach", "totals not reported to the new host");
			}
			break;
		}
		case 3: {
			bool v = r.coin();
			a.want_cancel = b.want_cancel = v;
			VH_CHECK(c, agg[j].cancel() == (host && v), "cancel", "worker does not see the cancellation of its host");
			size_t nt = host ? host->texts.size() : 0, ns = host ? host->shows : 0;
			agg[j].set_text("text");
			agg[j].show(true);
			if (host) VH_CHECK(c, host->texts.size() == nt + 1 && host->shows == ns + 1, "text", "text or visibility did not reach the host");
			break;
		}
		default: {
			T v = rnd_in<T>(r, { w[j][0], w[j][1] });
			agg[j].set(v);
			w[j][2] = v;
			if (host) VH_CHECK(c, host->vals.size() == nv + 1 && host->vals.back() == sum(2), "aggregate-sum", "%lld reported, %lld expected", (long long)host->vals.back(), (long long)sum(2));
			sg = vh::mix(sg ^ v);
		}
		}
		if (c.failed) return;
	}
	c.sig(sg);
}

// Many workers. The host is not synchronised.
struct Ordered : stdex::progress<int64_t>
{
	vh::Case& c;
	std::shared_ptr<std::atomic<bool>> detached = std::make_shared<std::atomic<bool>>(false);
	int64_t end = 0, last = INT64_MIN;
	uint64_t sets = 0, ranges = 0, order = 0;
	std::atomic<uint64_t> others{ 0 };
	std::atomic<bool> want_cancel{ false };
	Ordered(vh::Case& _c) : c(_c) {}
	void set_range(int64_t s, int64_t e) override
	{
		ranges++;
		VH_CHECK(c, s == 0 && e >= end, "aggregate-range-order", "range went back from %lld to %lld", (long long)end, (long long)e);
		end = e;
		VH_CHECK(c, !*detached, "host-after-detach", "host called after it was detached");
	}
	void set(int64_t v) override
	{
		sets++;
		VH_CHECK(c, v >= last, "aggregate-order", "progress went back from %lld to %lld", (long long)last, (long long)v);
		VH_CHECK(c, v <= end, "aggregate-bound", "progress %lld beyond the range of %lld", (long long)v, (long long)end);
		last = v;
		order = vh::mix(order ^ static_cast<uint64_t>(v));
		VH_CHECK(c, !*detached, "host-after-detach", "host called after it was detached");
	}
	void set_text(const char*) override { others++; }
	void show(bool) override { others++; }
	bool cancel() override { others++; return want_cancel; }
};

VH_GROUP(aggregate_threads, 250, 5000, 100)
{
	auto& r = c.rng;
	vh::Guard g(c, "aggregate-stuck");
	size_t n = 2 + r.below(5);
	auto host = std::make_unique<Ordered>(c);
	stdex::aggregate_progress<int64_t> agg(n, host.get());
	std::vector<int64_t> totals(n);
	std::atomic<bool> go{ false };
	std::atomic<size_t> running{ n };
	std::vector<std::thread> ts;
	bool cancelling = r.chance(1, 3), swapping = r.chance(1, 2);
	for (size_t i = 0; i < n; i++) {
		uint64_t s = r.next();
		totals[i] = static_cast<int64_t>(r.chance(1, 6) ? r.below(3) : r.below(100000));
		ts.emplace_back([&, i, s] {
			vh::Rng q(s);
			auto& w = agg[i];
			while (!go) std::this_thread::yield();
			w.set_range(0, totals[i]);
			int64_t v = 0;
			while (v < totals[i]) {
				v = std::min<int64_t>(totals[i], v + 1 + static_cast<int64_t>(q.below(totals[i] / 20 + 1)));
				w.set(v);
				if (q.chance(1, 8)) w.set_text("x");
				if (q.chance(1, 8)) w.cancel();
				vh::jitter(q);
			}
			if (cancelling) {
				for (unsigned k = 0; k < 20000 && !w.cancel(); k++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
				VH_CHECK(c, w.cancel(), "cancel", "worker never saw the cancellation");
			}
			running--;
		});
	}
	go = true;
	uint64_t hosts = 1;
	if (swapping) {
		// Hosts that come and go: never called after detach() returned.
		for (unsigned k = 0; k < 30 && running; k++) {
			std::this_thread::sleep_for(std::chrono::microseconds(r.below(100)));
			auto old = agg.detach();
			VH_CHECK(c, old == host.get(), "aggregate-detach", "detach() returned another host");
			*host->detached = true;
			auto next = std::make_unique<Ordered>(c);
			next->want_cancel = host->want_cancel.load();
			host = std::move(next); // The old one is gone
			agg.attach(host.get());
			hosts++;
		}
	}
	if (cancelling) { vh::jitter(r); host->want_cancel = true; }
	for (auto& t : ts) t.join();
	int64_t total = 0;
	for (auto t : totals) total += t;
	VH_CHECK(c, host->last == total && host->end == total, "aggregate-final", "last report is %lld of %lld, total is %lld", (long long)host->last, (long long)host->end, (long long)total);
	c.count("reports", host->sets);
	c.count("hosts", hosts);
	c.sig(host->order);
}

// Lazy progress: bounds from times measured around each call.
struct Lazy : stdex::lazy_progress<int>
{
	unsigned n = 0;
	using stdex::lazy_progress<int>::lazy_progress;
	void do_set() override { n++; }
	int value() const { return m_value; }
};

VH_GROUP(lazy, 120, 1500, 40)
{
	auto& r = c.rng;
	using clk = std::chrono::high_resolution_clock;
	auto timeout = std::chrono::microseconds(500 + r.below(8000));
	Lazy p(timeout);
	int start = static_cast<int>(r.range(0, 50)), end = start + 100 + static_cast<int>(r.below(1000));
	p.set_range(start, end);
	bool any = false;
	clk::time_point prev_before{}, prev_after{};
	int forwarded = -1;
	unsigned fw = 0, sup = 0;
	uint64_t sg = 0;
	for (unsigned i = 0; i < 60; i++) {
		switch (r.below(6)) {
		case 0: std::this_thread::sleep_for(timeout + std::chrono::microseconds(r.below(500))); break;
		case 1: case 2: std::this_thread::sleep_for(std::chrono::microseconds(r.below(static_cast<uint64_t>(timeout.count())))); break;
		default: break;
		}
		int v = r.chance(1, 12) ? start : r.chance(1, 12) ? end : r.chance(1, 5) && any ? forwarded : static_cast<int>(r.range(start + 1, end - 1));
		unsigned n = p.n;
		auto before = clk::now();
		p.set(v);
		auto after = clk::now();
		VH_CHECK(c, p.n <= n + 1, "lazy-twice", "one value forwarded %u times", p.n - n);
		bool f = p.n != n;
		bool edge = v == start || v == end;
		if (f) {
			VH_CHECK(c, p.value() == v, "lazy-value", "%d forwarded for %d", p.value(), v);
			if (!edge && any)
				VH_CHECK(c, after - prev_before >= timeout, "lazy-too-often", "forwarded after %lld us at most, timeout %lld us", (long long)std::chrono::duration_cast<std::chrono::microseconds>(after - prev_before).count(), (long long)timeout.count());
			fw++;
			prev_before = before, prev_after = after;
			any = true;
			forwarded = v;
		}
		else {
			sup++;
			VH_CHECK(c, !edge, "lazy-edge", "start or end of the range not forwarded");
			if (v != forwarded)
				VH_CHECK(c, any && before - prev_after < timeout, "lazy-lost", "not forwarded %lld us after the last, timeout %lld us", (long long)std::chrono::duration_cast<std::chrono::microseconds>(before - prev_after).count(), (long long)timeout.count());
		}
		sg = vh::mix(sg ^ (f ? v : 0));
		if (c.failed) return;
	}
	c.count("forwarded", fw);
	c.count("suppressed", sup);
	if (fw && sup) c.sig(sg);
}

VH_GROUP(deadline, 60, 600, 20)
{
	auto& r = c.rng;
	using clk = std::chrono::high_resolution_clock;
	Rec<int> rec;
	auto timeout = std::chrono::microseconds(r.below(20000));
	bool hosted = r.chance(3, 4);
	auto t0 = clk::now();
	stdex::timeout_progress<int> p(timeout, hosted ? &rec : nullptr);
	auto t1 = clk::now();
	bool was = false;
	unsigned polls = 0;
	for (;; polls++) {
		if (hosted) rec.want_cancel = r.chance(1, 20);
		auto before = clk::now();
		bool got = p.cancel();
		auto after = clk::now();
		if (hosted && rec.want_cancel) VH_CHECK(c, got, "cancel", "cancellation of the host not seen");
		else if (after < t0 + timeout) VH_CHECK(c, !got, "deadline-early", "cancelled before the deadline");
		else if (before > t1 + timeout) { VH_CHECK(c, got, "deadline-missed", "not cancelled after the deadline"); was = true; break; }
		if (c.failed) return;
		p.set_range(0, static_cast<int>(polls));
		p.set(static_cast<int>(polls));
		p.set_text("x");
		p.show(true);
		if (hosted) VH_CHECK(c, rec.vals.size() == polls + 1 && rec.ranges.size() == polls + 1 && rec.texts.size() == polls + 1 && rec.shows == polls + 1, "deadline-forward", "reports not passed on");
		std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
	}
	if (was) c.sig(vh::mix(timeout.count()) ^ polls);
}

VH_MAIN
