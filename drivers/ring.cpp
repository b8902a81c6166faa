// C01: ring buffer. Model check on one thread, sequence monitor on several.
#include "vh.hpp"
#include <stdex/ring.hpp>

template <class T> static T val(uint64_t i) { return static_cast<T>(vh::mix(i)); }

// One thread: every call that the model says cannot block, against a deque.
template <class T, size_t N>
static void model(vh::Case& c)
{
	auto& r = c.rng;
	vh::Guard g(c, "ring-stuck-single");
	auto ring = std::make_unique<stdex::ring<T, N>>(); // On the heap: overruns hit a redzone
	std::deque<T> ref;
	uint64_t pushed = 0, sg = N;
	bool quit = false;
	for (unsigned step = 0, steps = 20 + static_cast<unsigned>(r.below(80)); step < steps; step++) {
		bool canw = ref.size() < N, canr = !ref.empty();
		switch (r.below(quit ? 7 : 20)) {
		case 5: // sync never blocks when drained or quit
			if (quit || !canr) ring->sync();
			continue;
		case 6:
			if (step > steps / 2 && !quit && r.chance(1, 3)) { ring->quit(); quit = true; }
			continue;
		default: break;
		}
		if (r.coin() ? canw || quit : !(canr || quit)) {
			auto [p, n] = ring->back();
			if (!canw) { VH_CHECK(c, !p && !n, "ring-back-full-quit", "back() of a full ring after quit gave %zu elements", n); continue; }
			if (quit && !p) { VH_CHECK(c, !n, "ring-back-quit", "null with size %zu", n); continue; }
			VH_CHECK(c, p && n && n <= N - ref.size(), "ring-back-size", "cap %zu used %zu: back() gave %zu", N, ref.size(), n);
			if (!p || !n || n > N - ref.size()) return;
			size_t k = static_cast<size_t>(r.coin() ? n : r.below(n + 1));
			for (size_t i = 0; i < n; i++) p[i] = i < k ? val<T>(pushed + i) : T(0); // The whole block is ours to write
			for (size_t i = 0; i < k; i++) ref.push_back(val<T>(pushed + i));
			pushed += k;
			ring->push(k);
			sg = vh::mix(sg ^ (k << 1));
		}
		else if (canr || quit) {
			auto [p, n] = ring->front();
			if (!canr) { VH_CHECK(c, !p && !n, "ring-front-empty-quit", "front() of an empty ring after quit gave %zu elements", n); continue; }
			VH_CHECK(c, p && n && n <= ref.size(), "ring-front-size", "cap %zu used %zu quit %d: front() gave %zu", N, ref.size(), quit, n);
			if (!p || !n || n > ref.size()) return;
			for (size_t i = 0; i < n; i++)
				if (p[i] != ref[i]) { c.fail("ring-data", "cap %zu: element %zu of the block differs from what was committed", N, i); return; }
			size_t k = static_cast<size_t>(r.coin() ? n : r.below(n + 1));
			ref.erase(ref.begin(), ref.begin() + k);
			ring->pop(k);
			sg = vh::mix(sg ^ (k << 1 | 1));
		}
	}
	c.count("elements", pushed);
	if (pushed > N) c.sig(sg);
}

VH_GROUP(model, 4000, 80000, 1000)
{
	switch (c.rng.below(9)) {
	case 0: return model<uint8_t, 1>(c);
	case 1: return model<uint8_t, 2>(c);
	case 2: return model<uint8_t, 3>(c);
	case 3: return model<uint16_t, 4>(c);
	case 4: return model<uint8_t, 5>(c);
	case 5: return model<uint64_t, 7>(c);
	case 6: return model<uint8_t, 16>(c);
	case 7: return model<uint32_t, 100>(c);
	default: return model<uint8_t, 37>(c);
	}
}

// Producer, consumer, and optionally a thread that waits for the ring to drain and one that quits.
template <class T, size_t N>
static void threads(vh::Case& c)
{
	auto& r = c.rng;
	vh::Guard g(c, "ring-stuck");
	auto ring = std::make_unique<stdex::ring<T, N>>();
	uint64_t total = r.below(40) * N / 2 + r.below(60);
	bool with_quit = r.chance(1, 3), quit_at_once = r.coin(), with_sync = r.chance(1, 2), prod_sync = r.chance(1, 2), jit = r.coin(), slow_reader = r.chance(1, 4);
	uint64_t s1 = r.next(), s2 = r.next(), s3 = r.next(), quit_after = r.below(total + 1);
	std::atomic<uint64_t> committed{ 0 }, pushed{ 0 }, due{ 0 }, popping{ 0 }, received{ 0 };
	std::atomic<bool> quit{ false }, prod_done{ false };
	std::atomic<uint64_t> blocks{ 0 }, h{ 0 };

	std::thread prod([&] {
		vh::Rng q(s1);
		uint64_t i = 0;
		while (i < total) {
			if (jit) vh::jitter(q);
			auto [p, n] = ring->back();
			if (!p) {
				VH_CHECK(c, n == 0, "ring-back-quit", "null with size %zu", n);
				VH_CHECK(c, quit.load(), "ring-back-null", "back() gave up without quit");
				break;
			}
			if (!n || n > N) { c.fail("ring-back-size", "back() gave %zu of %zu", n, N); break; }
			size_t k = static_cast<size_t>(std::min<uint64_t>(q.coin() ? n : 1 + q.below(n), total - i));
			for (size_t j = 0; j < k; j++) p[j] = val<T>(i + j);
			i += k;
			committed.store(i); // before push: an upper bound on what the consumer may see
			ring->push(k);
			pushed.store(i); // after push: a lower bound on what the consumer must see
			if (prod_sync && q.chance(1, 8)) {
				ring->sync();
				VH_CHECK(c, quit.load() || popping.load() == i, "ring-sync-early", "sync() returned with %llu of %llu consumed", (unsigned long long)popping.load(), (unsigned long long)i);
			}
			if (quit.load() && q.chance(1, 4)) break;
		}
		prod_done = true;
		if (!with_quit && quit_at_once) {
			// The consumer may be waiting for what has just been committed.
			quit = true;
			ring->quit();
		}
	});
	std::thread cons([&] {
		vh::Rng q(s2);
		uint64_t i = 0;
		for (;;) {
			if (jit) vh::jitter(q);
			if (slow_reader && q.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(100)));
			auto [p, n] = ring->front();
			if (!p) {
				VH_CHECK(c, n == 0, "ring-front-quit", "null with size %zu", n);
				VH_CHECK(c, quit.load(), "ring-front-null", "front() gave up without quit");
				break;
			}
			if (!n || n > N || i + n > committed.load()) { c.fail("ring-front-size", "front() gave %zu with %llu committed, %llu consumed", n, (unsigned long long)committed.load(), (unsigned long long)i); break; }
			for (size_t j = 0; j < n; j++)
				if (p[j] != val<T>(i + j)) { c.fail("ring-data", "element %llu of %zu-ring is not what was committed there", (unsigned long long)(i + j), N); break; }
			size_t k = static_cast<size_t>(q.coin() ? n : 1 + q.below(n));
			// Consumed elements are the producer's again: scribble over them.
			for (size_t j = 0; j < k; j++) p[j] = T(0x5a);
			i += k;
			popping.store(i);
			ring->pop(k);
			received.store(i);
			blocks++;
			h = vh::mix(h.load() ^ k);
		}
		received.store(i);
	});
	std::thread syncer, quitter;
	if (with_sync)
		syncer = std::thread([&] {
			vh::Rng q(s3);
			for (unsigned k = 0; k < 6 && !quit.load(); k++) {
				std::this_thread::sleep_for(std::chrono::microseconds(q.below(150)));
				ring->sync();
			}
		});
	if (with_quit) {
		quitter = std::thread([&] {
			while (received.load() < quit_after && !prod_done.load())
				std::this_thread::yield();
			due = pushed.load();
			quit = true;
			ring->quit();
		});
		quitter.join();
		prod.join();
	}
	else {
		prod.join();
		ring->sync();
		VH_CHECK(c, quit_at_once || popping.load() == total, "ring-sync-early", "sync() returned with %llu of %llu consumed", (unsigned long long)popping.load(), (unsigned long long)total);
		quit = true;
		ring->quit();
	}
	cons.join();
	if (with_sync) syncer.join();
	// What was committed before the consumer was told to quit is not lost. A block committed after the consumer left is the producer's business.
	if (!with_quit) {
		VH_CHECK(c, received.load() == total, "ring-loss", "%llu of %llu elements received", (unsigned long long)received.load(), (unsigned long long)total);
	}
	else {
		VH_CHECK(c, received.load() >= due.load(), "ring-loss", "%llu elements were committed before the ring was told to quit, %llu received", (unsigned long long)due.load(), (unsigned long long)received.load());
		auto left = committed.load() - received.load();
		if (left) {
			auto [p, n] = ring->front();
			VH_CHECK(c, p && n && n <= left, "ring-loss", "%llu elements committed and not received, ring gives %zu", (unsigned long long)left, n);
		}
		else {
			auto [p, n] = ring->front();
			VH_CHECK(c, !p && !n, "ring-front-quit", "drained ring gives %zu elements", n);
		}
	}
	c.count("elements", received.load());
	c.count("blocks", blocks.load());
	if (received.load() > N) c.sig(vh::mix(h.load() ^ N));
}

VH_GROUP(threads, 400, 6000, 60)
{
	switch (c.rng.below(6)) {
	case 0: return threads<uint8_t, 1>(c);
	case 1: return threads<uint32_t, 2>(c);
	case 2: return threads<uint64_t, 3>(c);
	case 3: return threads<uint8_t, 16>(c);
	case 4: return threads<uint16_t, 61>(c);
	default: return threads<uint64_t, 256>(c);
	}
}

// A producer waiting for space and another thread waiting for the drain, at once: both must wake.
VH_GROUP(waiters, 60, 600, 8)
{
	auto& r = c.rng;
	vh::Guard g(c, "ring-waiter-stuck", 20);
	stdex::ring<uint8_t, 4> ring;
	bool sync_first = r.coin(), use_quit = r.chance(1, 3), quit_reader = r.coin(), lockstep = r.coin();
	unsigned pre = static_cast<unsigned>(r.below(300));
	auto fill = [&](size_t k) { while (k) { auto [p, n] = ring.back(); size_t x = std::min(n, k); memset(p, 7, x); ring.push(x); k -= x; } };
	fill(4);
	std::atomic<int> woke{ 0 };
	std::thread prod, sync;
	auto start = [&](bool is_sync) {
		if (is_sync) sync = std::thread([&] { ring.sync(); woke++; });
		else prod = std::thread([&] { auto [p, n] = ring.back(); if (p) { *p = 9; ring.push(1); } woke++; });
	};
	start(sync_first);
	std::this_thread::sleep_for(std::chrono::microseconds(pre));
	start(!sync_first);
	std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
	if (use_quit) {
		ring.quit();
		prod.join();
		sync.join();
	}
	else {
		// Consume in pieces until the producer's element arrived and all is drained.
		size_t got = 0;
		while (got < 5) {
			auto [p, n] = ring.front();
			size_t k = 1 + static_cast<size_t>(r.below(n));
			got += k;
			ring.pop(k);
			// Some space is enough for the producer: it must not take an empty ring to wake it.
			if (lockstep && prod.joinable()) prod.join();
		}
		if (prod.joinable()) prod.join();
		sync.join();
	}
	if (quit_reader) {
		stdex::ring<uint8_t, 4> r2;
		std::thread t([&] { auto [p, n] = r2.front(); VH_CHECK(c, !p && !n, "ring-front-quit", "empty ring gives data"); });
		std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
		r2.quit();
		t.join();
	}
	c.count("waiters woken", woke.load());
	c.sig(vh::mix(sync_first | use_quit << 1 | quit_reader << 2 | static_cast<uint64_t>(pre / 40) << 3 | static_cast<uint64_t>(lockstep) << 10));
}
// A consumer waits in front() of an empty ring; data is committed and the ring told to quit before it gets to run.
VH_GROUP(commit_then_quit, 60, 600, 8)
{
	auto& r = c.rng;
	vh::Guard g(c, "ring-stuck");
	for (unsigned round = 0; round < 40; round++) {
		stdex::ring<uint32_t, 16> ring;
		unsigned first = static_cast<unsigned>(r.below(4)), last = 1 + static_cast<unsigned>(r.below(12));
		std::atomic<unsigned> got{ 0 };
		std::atomic<bool> waiting{ false };
		std::thread t([&] {
			for (;;) {
				if (got.load() == first) waiting = true;
				auto [p, n] = ring.front();
				if (!p) break;
				for (size_t i = 0; i < n; i++)
					if (p[i] != val<uint32_t>(got.load() + i)) c.fail("ring-data", "element %u", got.load());
				ring.pop(n);
				got += static_cast<unsigned>(n);
			}
		});
		auto put = [&](unsigned from, unsigned count) {
			while (count) {
				auto [p, n] = ring.back();
				unsigned k = std::min<unsigned>(static_cast<unsigned>(n), count);
				for (unsigned i = 0; i < k; i++) p[i] = val<uint32_t>(from + i);
				ring.push(k);
				from += k; count -= k;
			}
		};
		put(0, first);
		while (!waiting) std::this_thread::yield();
		unsigned spin = static_cast<unsigned>(r.below(4));
		if (spin) std::this_thread::sleep_for(std::chrono::microseconds(20 * spin));
		put(first, last);
		ring.quit();
		t.join();
		VH_CHECK(c, got.load() == first + last, "ring-loss", "%u of %u elements received", got.load(), first + last);
		c.count("elements", got.load());
		c.sig(vh::mix(first | last << 4 | spin << 9));
	}
}
VH_MAIN
