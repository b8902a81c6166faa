// C02: pool and spinlock. Ownership tokens, conservation counts and a mutual-exclusion monitor.
#include "vh.hpp"
#include <sched.h>
#include <numa.h>
#include <stdex/pool.hpp>
#include <stdex/spinlock.hpp>

static std::atomic<int64_t> g_live{ 0 };
struct Item
{
	uint64_t id;
	int numa = -1;
	std::atomic<int> owners{ 1 };
	uint64_t payload = 0; // Unsynchronised on purpose: written by the owner only
	Item(uint64_t i) : id(i) { g_live++; }
	~Item() { owners = 1000; g_live--; }
};
using Ptr = std::unique_ptr<Item>;

// libnuma fills its CPU mask cache lazily and unsynchronised: filled here, before any thread starts.
static int g_numa_warm = [] { for (int i = 0, n = numa_num_configured_cpus(); i < n; i++) numa_node_of_cpu(i); return numa_node_of_cpu(sched_getcpu()); }();

VH_GROUP(pool_model, 1500, 20000, 400)
{
	auto& r = c.rng;
	int64_t base = g_live;
	uint64_t id = 0, sg = 0;
	{
		stdex::pool<Ptr> pool;
		std::map<int, std::multiset<uint64_t>> ref;
		for (unsigned i = 0, n = 5 + static_cast<unsigned>(r.below(60)); i < n; i++) {
			int numa = static_cast<int>(r.below(4)) - 1;
			switch (r.below(8)) {
			case 0: case 1: case 2: {
				Ptr p(new Item(++id));
				pool.push(std::move(p), numa);
				VH_CHECK(c, !p, "pool-push-kept", "pushed item still owned by the caller");
				ref[numa].insert(id);
				break;
			}
			case 3: case 4: case 5: {
				auto p = pool.pop(numa);
				auto& l = ref[numa];
				sg = vh::mix(sg ^ (p ? p->id : 0));
				if (!p) { VH_CHECK(c, l.empty(), "pool-empty", "pop() of %zu items gave none", l.size()); break; }
				auto it = l.find(p->id);
				VH_CHECK(c, it != l.end(), "pool-foreign", "pop() gave item %llu that is not in the pool of that node", (unsigned long long)p->id);
				if (it != l.end()) l.erase(it);
				break;
			}
			case 6:
				if (r.chance(1, 4)) { pool.clear(); ref.clear(); }
				break;
			default: { // Default node: consistent with itself on an unmigrated thread or at least with conservation
				Ptr p(new Item(++id));
				pool.push(std::move(p));
				// Find it back: same node now, or another if migrated meanwhile.
				int node = numa_node_of_cpu(sched_getcpu());
				ref[node].insert(id);
				break;
			}
			}
			size_t total = 0;
			for (auto& l : ref) total += l.second.size();
			VH_CHECK(c, g_live - base == static_cast<int64_t>(total), "pool-conservation", "%lld items alive, %zu expected", (long long)(g_live - base), total);
			if (c.failed) return;
		}
	}
	VH_CHECK(c, g_live == base, "pool-leak", "%lld items left after destruction", (long long)(g_live - base));
	c.count("items", id);
	if (id > 3) c.sig(sg);
}

VH_GROUP(pool_threads, 120, 2000, 40)
{
	auto& r = c.rng;
	vh::Guard g(c, "pool-stuck");
	int64_t base = g_live;
	std::atomic<uint64_t> made{ 0 }, pops{ 0 }, empty{ 0 };
	std::atomic<int64_t> kept{ 0 };
	bool clearing = r.chance(1, 3), own_node = r.coin();
	{
		stdex::pool<Ptr> pool;
		std::vector<std::thread> ts;
		unsigned nt = 2 + static_cast<unsigned>(r.below(4));
		std::atomic<bool> go{ false };
		int nodes = 1 + static_cast<int>(r.below(4));
		for (unsigned t = 0; t < nt; t++) {
			uint64_t s = r.next();
			ts.emplace_back([&, s, t] {
				vh::Rng q(s);
				std::vector<Ptr> mine;
				while (!go) std::this_thread::yield();
				for (unsigned i = 0; i < 150; i++) {
					vh::jitter(q);
					int numa = static_cast<int>(q.below(nodes));
					bool dflt = own_node && q.coin();
					if (q.coin()) {
						auto p = dflt ? pool.pop() : pool.pop(numa);
						pops++;
						if (!p) {
							empty++;
							p.reset(new Item(++made));
							p->owners = 0;
						}
						else if (!dflt && p->numa >= 0)
							VH_CHECK(c, p->numa == numa, "pool-foreign", "item of node %d popped from node %d", p->numa, numa);
						int o = p->owners.fetch_add(1);
						if (o != 0) { c.fail("pool-shared-item", "item %llu handed out while it has %d owners", (unsigned long long)p->id, o); return; }
						p->payload += 1; // TSan: a race unless ownership passed through a lock
						mine.push_back(std::move(p));
					}
					else if (!mine.empty()) {
						auto p = std::move(mine.back());
						mine.pop_back();
						p->payload += 1;
						p->owners.fetch_sub(1);
						p->numa = dflt ? -1 : numa;
						if (dflt) pool.push(std::move(p)); else pool.push(std::move(p), numa);
					}
					if (clearing && t == 0 && q.chance(1, 20)) pool.clear();
				}
				kept += static_cast<int64_t>(mine.size());
			});
		}
		go = true;
		for (auto& t : ts) t.join();
		// Threads destroyed what they kept; the rest is in the pool.
		int64_t in_pool = 0;
		if (!own_node) {
			int64_t before = g_live - base;
			for (int n = 0; n < nodes; n++)
				while (auto p = pool.pop(n)) in_pool++;
			VH_CHECK(c, in_pool == before, "pool-loss", "%lld items alive in the pool, %lld popped", (long long)before, (long long)in_pool);
			if (!clearing)
				VH_CHECK(c, in_pool + kept == static_cast<int64_t>(made.load()), "pool-loss", "%llu made, %lld kept, %lld left", (unsigned long long)made.load(), (long long)kept.load(), (long long)in_pool);
		}
		else if (!clearing)
			VH_CHECK(c, g_live - base + kept == static_cast<int64_t>(made.load()), "pool-loss", "%llu made, %lld kept, %lld alive", (unsigned long long)made.load(), (long long)kept.load(), (long long)(g_live - base));
	}
	VH_CHECK(c, g_live == base, "pool-leak", "%lld items left after destruction", (long long)(g_live - base));
	c.count("pops", pops);
	c.count("pops of an empty pool", empty);
	if (pops > empty) c.sig(vh::mix(made * 1000 + empty));
}

VH_GROUP(spinlock, 100, 1500, 30)
{
	auto& r = c.rng;
	vh::Guard g(c, "spinlock-stuck");
	stdex::spinlock lock;
	std::atomic<int> holders{ 0 };
	std::atomic<uint64_t> fails{ 0 }, entries{ 0 };
	uint64_t counter = 0, order = 0; // Unsynchronised on purpose
	unsigned nt = 2 + static_cast<unsigned>(r.below(3));
	std::vector<std::thread> ts;
	for (unsigned t = 0; t < nt; t++) {
		uint64_t s = r.next();
		ts.emplace_back([&, s, t] {
			vh::Rng q(s);
			for (unsigned i = 0; i < 200; i++) {
				if (q.chance(1, 3)) {
					if (!lock.try_lock()) { fails++; std::this_thread::yield(); continue; }
				}
				else
					lock.lock();
				int h = holders.fetch_add(1, std::memory_order_relaxed);
				if (h != 0) { c.fail("spinlock-two-holders", "lock entered with %d holders", h); }
				counter++;
				order = vh::mix(order ^ t);
				vh::jitter(q);
				// Nobody else can take it while it is held.
				if (q.chance(1, 4)) VH_CHECK(c, !lock.try_lock(), "spinlock-two-holders", "try_lock() succeeded on a held lock");
				holders.fetch_sub(1, std::memory_order_relaxed);
				entries.fetch_add(1, std::memory_order_relaxed);
				lock.unlock();
				vh::jitter(q);
			}
		});
	}
	for (auto& t : ts) t.join();
	VH_CHECK(c, counter == entries, "spinlock-lost-update", "%llu entries, counter %llu", (unsigned long long)entries.load(), (unsigned long long)counter);
	VH_CHECK(c, lock.try_lock(), "spinlock-not-free", "lock is not free after all unlocked it");
	VH_CHECK(c, !lock.try_lock(), "spinlock-two-holders", "try_lock() succeeded on a held lock");
	VH_CHECK(c, !lock.try_lock(), "spinlock-two-holders", "try_lock() succeeded on a held lock after a failed one");
	lock.unlock();
	lock.lock();
	lock.unlock();
	VH_CHECK(c, lock.try_lock(), "spinlock-not-free", "lock is not free after unlock");
	lock.unlock();
	c.count("entries", entries);
	c.count("failed tries", fails);
	c.sig(order);
}
VH_MAIN
