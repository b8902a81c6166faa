// C03: watchdog. A trace of resets and callbacks with times measured around every reset. A callback is wrong when even the
// longest pause that can have happened (measured) is shorter than the timeout; a missing callback is wrong when none came
// within a time far beyond the timeout.
#include "vh.hpp"
#include <stdex/watchdog.hpp>

using clk = std::chrono::steady_clock;
using ms = std::chrono::milliseconds;

struct Trace
{
	std::atomic<uint64_t> calls{ 0 };
	std::atomic<bool> destroyed{ false };
	std::atomic<bool> late{ false };
};

template <class Pred>
static bool wait_for(Pred p, unsigned seconds = 20)
{
	for (unsigned i = 0; i < seconds * 500; i++) {
		if (p()) return true;
		std::this_thread::sleep_for(ms(2));
	}
	return p();
}

// Resets in time: never called. A heap-allocated trace outlives the watchdog.
template <class Clock, class Dur>
static void in_time(vh::Case& c)
{
	auto& r = c.rng;
	vh::Guard g(c, "watchdog-stuck", 60);
	auto tr = std::make_shared<Trace>();
	ms timeout(60 + r.below(200));
	bool burst = r.coin();
	auto longest = clk::duration::zero();
	uint64_t resets = 0;
	{
		auto last = clk::now();
		stdex::watchdog<Clock, Dur> wd(std::chrono::duration_cast<Dur>(timeout), [tr] { tr->calls++; if (tr->destroyed) tr->late = true; });
		auto end = clk::now() + timeout + timeout + ms(r.below(100));
		while (clk::now() < end) {
			if (r.coin()) std::this_thread::sleep_for(std::chrono::microseconds(r.below(timeout.count() * 250)));
			else vh::jitter(r);
			auto before = clk::now();
			// Resets are not toggles: any number of them in a row is a reset.
			for (unsigned n = burst ? 1 + static_cast<unsigned>(r.below(4)) : 1; n--; resets++) wd.reset();
			auto after = clk::now();
			longest = std::max(longest, after - last); // upper bound of the pause
			last = before;
		}
		auto calls = tr->calls.load();
		longest = std::max(longest, clk::now() - last);
		if (longest < timeout) {
			VH_CHECK(c, calls == 0, "watchdog-false-alarm", "called %llu times, longest pause %lld us, timeout %lld ms", (unsigned long long)calls,
				(long long)std::chrono::duration_cast<std::chrono::microseconds>(longest).count(), (long long)timeout.count());
			c.sig(vh::mix(timeout.count() * 1000 + resets));
		}
	}
	tr->destroyed = true;
	c.count("resets", resets);
}
VH_GROUP(in_time, 40, 400, 10)
{
	if (c.rng.coin()) in_time<std::chrono::steady_clock, std::chrono::steady_clock::duration>(c);
	else in_time<std::chrono::system_clock, ms>(c);
}

// Pauses too long: called once for each, and armed again by the next reset.
VH_GROUP(overdue, 40, 400, 20)
{
	auto& r = c.rng;
	vh::Guard g(c, "watchdog-stuck", 120);
	auto tr = std::make_shared<Trace>();
	ms timeout(1 + r.below(30));
	unsigned block_ms = r.chance(1, 3) ? static_cast<unsigned>(r.below(20)) : 0;
	bool reset_in_callback = r.chance(1, 4);
	uint64_t expect = 0;
	auto t0 = clk::now();
	{
		std::function<void()> on_call;
		std::atomic<bool> in_call{ false };
		stdex::watchdog<std::chrono::steady_clock> wd(std::chrono::duration_cast<clk::duration>(timeout), [&, tr] {
			in_call = true;
			if (tr->calls++ == 0)
				VH_CHECK(c, clk::now() - t0 >= timeout, "watchdog-early", "called before the timeout passed");
			if (tr->destroyed) tr->late = true;
			if (block_ms) std::this_thread::sleep_for(ms(block_ms));
			in_call = false;
		});
		for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(5)); i < n; i++) {
			if (!wait_for([&] { return tr->calls > expect; })) {
				c.fail("watchdog-silent", "not called %llu times although the timeout of %lld ms passed long ago (round %u)", (unsigned long long)expect + 1, (long long)timeout.count(), i);
				return;
			}
			expect++;
			if (reset_in_callback && block_ms) {
				// Reset while the callback may still run: counts as a reset, and the next pause is overdue again.
				wd.reset();
				continue;
			}
			std::this_thread::sleep_for(ms(r.below(timeout.count() * 3 + 5)));
			VH_CHECK(c, tr->calls == expect, "watchdog-repeats", "called %llu times for %llu overdue pauses", (unsigned long long)tr->calls.load(), (unsigned long long)expect);
			if (i + 1 < n) {
				if (r.coin()) vh::jitter(r);
				wd.reset();
			}
		}
		if (r.coin()) wd.reset();
		if (r.coin()) vh::jitter(r);
	}
	tr->destroyed = true;
	auto calls = tr->calls.load();
	std::this_thread::sleep_for(timeout + ms(3));
	VH_CHECK(c, tr->calls == calls && !tr->late, "watchdog-after-destruction", "called after destruction");
	c.count("callbacks", calls);
	c.sig(vh::mix(timeout.count() | block_ms << 8 | expect << 16 | static_cast<uint64_t>(reset_in_callback) << 40));
}

// Destruction is prompt whatever the timeout and state, and nothing runs afterwards.
VH_GROUP(destroy, 300, 4000, 20)
{
	auto& r = c.rng;
	vh::Guard g(c, "watchdog-destruction-stuck", 20);
	auto tr = std::make_shared<Trace>();
	auto timeout = r.coin() ? clk::duration(std::chrono::hours(1)) : clk::duration(std::chrono::microseconds(r.below(300)));
	unsigned resets = static_cast<unsigned>(r.below(4)), pre = static_cast<unsigned>(r.below(400));
	{
		stdex::watchdog<clk> wd(timeout, [tr] { tr->calls++; if (tr->destroyed) tr->late = true; });
		for (unsigned i = 0; i < resets; i++) {
			vh::jitter(r);
			wd.reset();
		}
		if (r.coin()) std::this_thread::sleep_for(std::chrono::microseconds(pre));
	}
	tr->destroyed = true;
	VH_CHECK(c, timeout < std::chrono::hours(1) || tr->calls == 0, "watchdog-false-alarm", "called within an hour's timeout");
	if (r.chance(1, 8)) std::this_thread::sleep_for(ms(1));
	VH_CHECK(c, !tr->late, "watchdog-after-destruction", "called after destruction");
	c.count("callbacks", tr->calls);
	c.sig(vh::mix(resets | pre / 40 << 8 | (timeout > std::chrono::minutes(1) ? 1 << 20 : 0)));
}

// The callback may use the watchdog, and others may reset it while the callback runs: neither waits for the callback to end.
VH_GROUP(reentrant, 40, 400, 10)
{
	auto& r = c.rng;
	vh::Guard g(c, "watchdog-reset-stuck", 60);
	auto tr = std::make_shared<Trace>();
	ms timeout(2 + r.below(15));
	bool inside = r.coin();
	uint64_t rounds = 1 + r.below(3);
	unsigned twice = static_cast<unsigned>(r.below(3));
	std::atomic<uint64_t> outside{ 0 };
	std::atomic<bool> held{ false };
	{
		stdex::watchdog<clk>* self = nullptr;
		std::mutex m;
		std::unique_lock<std::mutex> lk(m);
		stdex::watchdog<clk> wd(timeout, [&, tr] {
			auto n = ++tr->calls;
			if (inside) {
				// Each call pleads for another chance, until enough.
				std::lock_guard<std::mutex> wait(m);
				if (n < rounds) for (unsigned i = 0; i <= twice; i++) self->reset();
			}
			else {
				// Busy until another thread has reset.
				held = true;
				for (unsigned i = 0; i < 20000 && outside < n; i++) std::this_thread::sleep_for(ms(1));
				VH_CHECK(c, outside >= n, "watchdog-reset-waits", "reset() waits for the callback to end");
				held = false;
			}
		});
		self = &wd;
		lk.unlock();
		if (inside) {
			VH_CHECK(c, wait_for([&] { return tr->calls >= rounds; }), "watchdog-silent", "reset by the callback and not in time, called %llu times, %llu expected", (unsigned long long)tr->calls.load(), (unsigned long long)rounds);
			std::this_thread::sleep_for(timeout * 2);
			VH_CHECK(c, tr->calls == rounds, "watchdog-repeats", "called %llu times, %llu expected", (unsigned long long)tr->calls.load(), (unsigned long long)rounds);
		}
		else {
			for (uint64_t i = 1; i <= rounds; i++) {
				if (!wait_for([&] { return held.load() && tr->calls >= i; })) { c.fail("watchdog-silent", "not called after a reset during the callback (round %llu)", (unsigned long long)i); outside = 1000; break; }
				for (unsigned k = 0; k <= twice; k++) wd.reset();
				outside = i;
				if (!wait_for([&] { return !held || tr->calls > i; })) break;
			}
			outside = 1000;
		}
	}
	c.count("callbacks", tr->calls);
	c.sig(vh::mix(timeout.count() | inside << 8 | rounds << 9 | static_cast<uint64_t>(twice) << 12));
}

// Many resetting threads at once.
VH_GROUP(resetters, 20, 200, 5)
{
	auto& r = c.rng;
	vh::Guard g(c, "watchdog-stuck", 60);
	auto tr = std::make_shared<Trace>();
	ms timeout(20);
	std::atomic<uint64_t> resets{ 0 };
	{
		stdex::watchdog<clk> wd(timeout, [tr] { tr->calls++; });
		std::vector<std::thread> ts;
		for (unsigned t = 0; t < 3; t++) {
			uint64_t s = r.next();
			ts.emplace_back([&, s] { vh::Rng q(s); for (unsigned i = 0; i < 300; i++) { vh::jitter(q); wd.reset(); resets++; } });
		}
		for (auto& t : ts) t.join();
		auto calls = tr->calls.load();
		VH_CHECK(c, wait_for([&] { return tr->calls > calls || tr->calls > 0; }), "watchdog-silent", "not called after the resets stopped");
	}
	c.count("resets", resets);
	c.sig(vh::mix(tr->calls + c.index * 16));
}
VH_MAIN
