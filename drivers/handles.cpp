// X01: handle ownership against an account of every resource; scope guards; pointer loans.
#include "vh.hpp"
#include <sys/resource.h>
#include <stdex/compat.hpp>
#include <stdex/memory.hpp>
#include <stdex/scoped_executor.hpp>
#include <stdex/socket.hpp>
#include <stdex/system.hpp>
#include <sys/socket.h>

using namespace vh;

// Account of every resource
struct Account
{
	std::map<int, int> open;   // handle -> identity of what it refers to
	std::vector<int> unused{}; // handles to give out again, as an operating system does
	int next = 0, fail_in = -1;
	bool close_fails = false; // the next close() releases the handle, and reports a failure, as closing a file on a full network drive does
	uint64_t closes = 0, bad_close = 0, bad_dup = 0, failed = 0;
	int take(int id)
	{
		int h;
		if (!unused.empty()) { h = unused.back(); unused.pop_back(); }
		else h = next++;
		open[h] = id;
		return h;
	}
};
static Account A;
struct traits
{
	static inline const int invalid_handle = -7;
	static void close(int h)
	{
		A.closes++;
		auto i = A.open.find(h);
		if (i == A.open.end()) { A.bad_close++; return; }
		A.open.erase(i);
		A.unused.push_back(h);
		if (A.close_fails) {
			A.close_fails = false;
			throw std::system_error(EIO, std::system_category(), "close");
		}
	}
	static int duplicate(int h, bool = false)
	{
		if (A.fail_in >= 0 && A.fail_in-- == 0) { A.failed++; throw std::system_error(EMFILE, std::system_category(), "duplicate"); }
		auto i = A.open.find(h);
		if (i == A.open.end()) { A.bad_dup++; return invalid_handle; }
		return A.take(i->second);
	}
};
using obj = stdex::basic_sys_object<int, traits>;
struct derived : public obj { using obj::obj; int tag = 0; };

VH_GROUP(account, 60000, 600000, 5000)
{
	auto& r = c.rng;
	A = Account();
	uint64_t sg = 1;
	int ids = 0;
	{
		std::vector<std::unique_ptr<obj>> s; // objects
		std::vector<int> m;                  // identity expected in each; -1: none
		auto add = [&](std::unique_ptr<obj> o, int id) { s.push_back(std::move(o)); m.push_back(id); };
		auto fresh = [&](int& id) { id = ids++; return A.take(id); };
		auto verify = [&](const char* what) {
			std::map<int, int> want;
			for (size_t i = 0; i < s.size(); i++) {
				int h = s[i]->get();
				VH_CHECK(c, static_cast<bool>(*s[i]) == (m[i] >= 0) && (h != traits::invalid_handle) == (m[i] >= 0), "valid", "%s: object %zu has handle %d, expected to %s one", what, i, h, m[i] >= 0 ? "hold" : "hold no");
				if (c.failed) return;
				if (m[i] < 0) continue;
				VH_CHECK(c, !want.count(h), "shared", "%s: two objects hold handle %d", what, h);
				want[h] = m[i];
				auto k = A.open.find(h);
				VH_CHECK(c, k != A.open.end(), "closed-in-use", "%s: object %zu holds handle %d, which has been closed", what, i, h);
				VH_CHECK(c, k == A.open.end() || k->second == m[i], "identity", "%s: object %zu holds handle of %d, %d expected", what, i, k == A.open.end() ? -1 : k->second, m[i]);
			}
			VH_CHECK(c, A.open.size() <= want.size(), "leak", "%s: %zu handles open, %zu held", what, A.open.size(), want.size());
			VH_CHECK(c, !A.bad_close, "double-close", "%s: closed a handle that is not open", what);
			VH_CHECK(c, !A.bad_dup, "dup-closed", "%s: duplicated a handle that is not open", what);
		};
		for (size_t n = 4 + r.below(30); n && !c.failed; --n) {
			unsigned op = static_cast<unsigned>(s.empty() ? r.below(2) : r.below(14));
			size_t i = r.below(s.size()), j = r.below(s.size());
			if (r.chance(1, 4)) A.fail_in = static_cast<int>(r.below(2)); else A.fail_in = -1;
			const char* what = "";
			switch (op) {
			case 0: { what = "construct"; int id; int h = fresh(id); add(r.coin() ? std::make_unique<obj>(h) : std::make_unique<derived>(h), id); break; }
			case 1: what = "construct empty"; add(std::make_unique<obj>(), -1); break;
			case 2: {
				what = "copy-construct";
				bool will = m[i] >= 0 && A.fail_in == 0;
				try { add(std::make_unique<obj>(static_cast<const obj&>(*s[i])), m[i]); VH_CHECK(c, !will, "swallow", "%s: failure to duplicate was not reported", what); }
				catch (const std::system_error&) { VH_CHECK(c, will, "throw", "%s: throws", what); }
				break;
			}
			case 3: case 4: {
				what = i == j ? "copy-assign to itself" : "copy-assign";
				bool will = i != j && m[j] >= 0 && A.fail_in == 0;
				A.close_fails = !will && i != j && m[i] >= 0 && r.chance(1, 4);
				bool close_will = A.close_fails;
				try {
					*s[i] = static_cast<const obj&>(*s[j]);
					m[i] = m[j];
					VH_CHECK(c, !will && !close_will, "swallow", "%s: failure to duplicate or close was not reported", what);
				}
				catch (const std::system_error&) {
					VH_CHECK(c, will || close_will, "throw", "%s: throws", what);
					if (close_will) { // Whether it holds the new one is up to it
						m[i] = *s[i] ? m[j] : -1;
						A.close_fails = false;
						break;
					}
					what = "failed copy-assign";
					if (!*s[i]) m[i] = -1; // may have let go of what it had
				}
				break;
			}
			case 5: what = "move-construct"; add(std::make_unique<obj>(std::move(*s[i])), m[i]); m[i] = -1; break;
			case 6: case 7:
				what = i == j ? "move-assign to itself" : "move-assign";
				*s[i] = std::move(*s[j]);
				if (i != j) { m[i] = m[j]; m[j] = -1; }
				break;
			case 8: what = "swap"; std::swap(*s[i], *s[j]); std::swap(m[i], m[j]); break;
			case 9: {
				what = "close";
				A.close_fails = r.chance(1, 3);
				bool will = A.close_fails && m[i] >= 0, threw = false;
				try { s[i]->close(); }
				catch (const std::system_error&) { threw = true; }
				VH_CHECK(c, threw == will, "close-throw", "%s: %s", what, threw ? "throws" : "failure was not reported");
				if (will) what = "failed close";
				m[i] = -1;
				A.close_fails = false;
				break;
			}
			case 10: what = "destroy"; s.erase(s.begin() + i); m.erase(m.begin() + i); break;
			case 11: what = "assign temporary"; { int id; int h = fresh(id); *s[i] = obj(h); m[i] = id; } break;
			case 12: { // through a growing vector and back
				what = "vector";
				std::vector<obj> v;
				std::vector<int> vm;
				A.fail_in = -1;
				for (size_t k = 0; k < s.size(); k++) { v.insert(v.begin() + r.below(v.size() + 1), std::move(*s[k])); }
				for (auto& o : v) vm.push_back(o ? A.open.count(o.get()) ? A.open[o.get()] : -2 : -1);
				s.clear();
				m.clear();
				for (size_t k = 0; k < v.size(); k++) add(std::make_unique<obj>(std::move(v[k])), vm[k]);
				break;
			}
			default: { // by value through a function
				what = "by value";
				A.fail_in = -1;
				auto f = [](obj o) { return o; };
				obj o = f(std::move(*s[i]));
				*s[j] = std::move(o);
				int id = m[i];
				m[i] = -1;
				m[j] = id;
			}
			}
			A.fail_in = -1;
			verify(what);
			sg = mix(sg ^ op ^ i << 8 ^ j << 16);
		}
		for (auto& o : s) (void)o->get();
	}
	VH_CHECK(c, c.failed || A.open.empty(), "leak", "%zu handles left open at the end", A.open.size());
	VH_CHECK(c, c.failed || !A.bad_close, "double-close", "closed a handle that is not open at the end");
	if (A.closes > 2) c.sig(sg);
	if (A.failed) c.count("failed_duplications", A.failed);
	c.count("closes", A.closes);
}

// Real descriptors: what an object holds is open and refers to what it should; what is released is closed.
static bool is_open(int fd) { return fcntl(fd, F_GETFD) >= 0; }
static ino_t inode(int fd) { struct stat s{}; return fstat(fd, &s) ? 0 : s.st_ino; }

VH_GROUP(descriptors, 6000, 60000, 500)
{
	auto& r = c.rng;
	uint64_t sg = 1;
	int p[2];
	if (pipe(p)) return;
	int low = p[0]; // descriptors from here on are ours
	ino_t ino[2] = { inode(p[0]), inode(p[1]) };
	bool one = ino[0] == ino[1];
	(void)one;
	{
		stdex::sys_object rd(p[0]), wr(p[1]);
		std::vector<stdex::sys_object> v;
		size_t expect = 1;
		for (size_t n = r.below(20); n; --n) {
			unsigned op = static_cast<unsigned>(r.below(5));
			sg = mix(sg ^ op);
			switch (op) {
			case 0: v.push_back(wr); expect++; break;
			case 1: if (!v.empty()) { size_t k = r.below(v.size()); if (v[k]) expect--; v.erase(v.begin() + k); } break;
			case 2: if (!v.empty()) { size_t k = r.below(v.size()); if (v[k]) expect--; v[k].close(); VH_CHECK(c, !v[k], "fd-close", "valid after close()"); } break;
			case 3: if (!v.empty()) { size_t k = r.below(v.size()); if (!v[k]) expect++; v[k] = wr; } break;
			default: if (!v.empty()) { size_t k = r.below(v.size()); stdex::sys_object t(std::move(v[k])); v[k] = std::move(t); }
			}
			size_t held = 1;
			std::set<int> fds{ wr.get() };
			for (auto& o : v) if (o) {
				held++;
				VH_CHECK(c, fds.insert(o.get()).second, "fd-shared", "descriptor %d held twice", o.get());
				VH_CHECK(c, is_open(o.get()) && inode(o.get()) == ino[1], "fd-open", "descriptor %d held but %s", o.get(), is_open(o.get()) ? "refers to something else" : "closed");
			}
			VH_CHECK(c, held == expect, "fd-count", "%zu descriptors held, %zu expected", held, expect);
		}
		// No descriptors left: copying fails, and everything stays as it was.
		if (r.chance(1, 3)) {
			rlimit was{}, none{};
			if (!getrlimit(RLIMIT_NOFILE, &was)) {
				none = was;
				none.rlim_cur = 0;
				int held = v.empty() ? -1 : v[0].get();
				bool copied = false, assigned = false, threw = false;
				int error = 0;
				if (!setrlimit(RLIMIT_NOFILE, &none)) {
					try { stdex::sys_object t(wr); copied = true; }
					catch (const std::system_error& e) { threw = true; error = e.code().value(); }
					if (!v.empty()) {
						try { v[0] = wr; assigned = true; }
						catch (const std::system_error&) {}
					}
					setrlimit(RLIMIT_NOFILE, &was);
					VH_CHECK(c, !copied && !assigned, "dup-report", "copy of a descriptor that could not be duplicated %s", copied ? "constructed" : "assigned");
					VH_CHECK(c, copied || (threw && error == EMFILE), "dup-error", "error %d, %d expected", error, EMFILE);
					VH_CHECK(c, wr && is_open(wr.get()) && inode(wr.get()) == ino[1], "dup-source", "the source of a failed copy is %s", wr ? "closed" : "invalid");
					if (!v.empty() && !assigned) VH_CHECK(c, v[0].get() == held && (held < 0 || (is_open(held) && inode(held) == ino[1])), "dup-target", "the target of a failed copy holds %d, it held %d", v[0].get(), held);
					c.count("failed_copies");
				}
			}
			if (c.failed) return;
		}
		// The pipe ends for the reader exactly when the last writer is gone
		fcntl(rd.get(), F_SETFL, O_NONBLOCK);
		char b;
		VH_CHECK(c, read(rd.get(), &b, 1) < 0 && errno == EAGAIN, "fd-early", "the pipe ended while a writer is held");
		wr.close();
		bool any = false;
		for (auto& o : v) any |= static_cast<bool>(o);
		ssize_t k = read(rd.get(), &b, 1);
		VH_CHECK(c, any ? k < 0 : k == 0, "fd-late", "read gives %zd, %s writer held", k, any ? "a" : "no");
		v.clear();
		VH_CHECK(c, read(rd.get(), &b, 1) == 0, "fd-leak", "the pipe did not end after every writer was released");
		int fd = rd.get();
		if (r.coin()) { ::close(fd); rd.close(); } // closed behind its back: tolerated
	}
	VH_CHECK(c, !is_open(low), "fd-leak", "descriptor %d left open", low);
	// Sockets move and close
	int sp[2];
	if (!socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sp)) {
		stdex::socket a(sp[0]), d;
		{
			stdex::socket b(sp[1]), e;
			e = std::move(b);
			VH_CHECK(c, !b && e && e.get() == sp[1], "socket-move", "after a move");
			if (r.coin()) { d = std::move(e); VH_CHECK(c, !e && d, "socket-move", "after a move"); }
		}
		char b;
		ssize_t k = read(a.get(), &b, 1);
		VH_CHECK(c, d ? k < 0 && errno == EAGAIN : k == 0, "socket-close", "read gives %zd, peer %s", k, d ? "held" : "released");
		d.close();
		VH_CHECK(c, read(a.get(), &b, 1) == 0, "socket-close", "the peer's close() did not close it");
	}
	c.sig(sg ^ r.next() % 64);
}

// Scope guards. Stack below the guard is overwritten in between, as any call would do.
__attribute__((noinline)) static uint64_t scribble(uint64_t x)
{
	volatile uint64_t a[64];
	for (auto& y : a) y = x;
	return a[7];
}
struct Log { unsigned init = 0, done = 0; uint64_t at_done = 0; };
template <class I, class D> stdex::scoped_executor<I, D> make_guard(I&& i, D&& d) { return stdex::scoped_executor<I, D>(std::forward<I>(i), std::forward<D>(d)); }

VH_GROUP(scope, 20000, 200000, 500)
{
	auto& r = c.rng;
	Log l;
	uint64_t token = r.next(), other = r.next();
	bool throw_init = r.chance(1, 6), throw_body = r.chance(1, 3), nested = r.coin();
	unsigned form = static_cast<unsigned>(r.below(4));
	unsigned seen_in_body = 99;
	auto body = [&]() {
		scribble(other);
		seen_in_body = l.done;
		if (nested) {
			Log l2;
			{ stdex::scoped_executor g2([&]() { l2.init++; }, [&l2, x = other]() { l2.done++; l2.at_done = x; }); scribble(token); }
			VH_CHECK(c, l2.init == 1 && l2.done == 1 && l2.at_done == other, "nested", "ran %u and %u times", l2.init, l2.done);
		}
		if (throw_body) throw 1;
	};
	auto init = [&]() { l.init++; if (throw_init) throw 2; };
	int caught = 0;
	try {
		switch (form) {
		case 0: { stdex::scoped_executor g([&]() { init(); }, [&l, token]() { l.done++; l.at_done = token; }); body(); break; } // as declared in a scope
		case 1: { stdex::scoped_executor g([&init]() { init(); }, [p = &l, t = std::make_unique<uint64_t>(token)]() { p->done++; p->at_done = *t; }); body(); break; }
		case 2: { auto done = [&]() { l.done++; l.at_done = token; }; stdex::scoped_executor<decltype(init)&, decltype(done)&> g(init, done); body(); break; }
		default: { std::function<void()> i(init), d([&l, token, s = std::string(40, 'x')]() { l.done++; l.at_done = s.size() == 40 ? token : 0; }); stdex::scoped_executor g(std::move(i), std::move(d)); body(); }
		}
	}
	catch (int e) { caught = e; }
	VH_CHECK(c, l.init == 1, "init", "entry action ran %u times", l.init);
	if (!throw_init) {
		VH_CHECK(c, seen_in_body == 0, "early", "exit action ran %u times before the end of the scope", seen_in_body);
		VH_CHECK(c, l.done == 1 && l.at_done == token, "done", "form %u: exit action ran %u times%s", form, l.done, throw_body ? " on an exception" : "");
		VH_CHECK(c, caught == (throw_body ? 1 : 0), "exception", "exception %d came out", caught);
	}
	else {
		VH_CHECK(c, l.done == 0 && caught == 2, "init-throws", "exit action ran %u times, exception %d", l.done, caught);
	}
	c.sig(token);
}

// Pointers lent to functions that return through pointers
struct Counted { static inline int live = 0; int v; explicit Counted(int x = 0) : v(x) { live++; } ~Counted() { live--; } };
static int deletes;
struct Del { void operator()(Counted* p) const { deletes++; delete p; } };
struct DelArr { void operator()(Counted* p) const { deletes++; delete[] p; } };
static void f_keep(Counted**) {}
static void f_replace(Counted** p, int v) { delete *p; *p = new Counted(v); }
static void f_drop(Counted** p) { delete *p; *p = nullptr; }
static void f_ref(Counted*& p, int v) { if (p) p->v = v; else p = new Counted(v); }
static void f_arr(Counted** p, int v) { delete[] *p; *p = new Counted[3]{ Counted(v), Counted(v), Counted(v) }; }

VH_GROUP(loans, 20000, 200000, 100)
{
	auto& r = c.rng;
	Counted::live = 0;
	deletes = 0;
	uint64_t sg = 1;
	{
		std::unique_ptr<Counted, Del> p;
		std::unique_ptr<Counted[], DelArr> a;
		bool have = false, ahave = false;
		int v = 0, av = 0;
		for (size_t n = 1 + r.below(8); n; --n) {
			unsigned op = static_cast<unsigned>(r.below(14));
			int x = static_cast<int>(r.below(1000));
			sg = mix(sg ^ op);
			switch (op) {
			case 0: p.reset(new Counted(x)); have = true; v = x; break;
			case 1: f_keep(stdex::get_ptr(p)); break;
			case 2: f_replace(stdex::get_ptr(p), x); have = true; v = x; break;
			case 3: f_drop(stdex::get_ptr(p)); have = false; break;
			case 4: { auto l = stdex::get_ptr(p); f_ref(l, x); have = true; v = x; break; }
			case 5: { auto l = stdex::get_ptr(p); VH_CHECK(c, !p, "loan", "owner kept the pointer it lent"); auto l2 = std::move(l); f_ref(l2, x); have = true; v = x; break; }
			case 6: f_arr(stdex::get_ptr(a), x); ahave = true; av = x; break;
			case 7: f_keep(stdex::get_ptr(a)); break;
			case 8: { // Lent on, with or without a change
				auto l = stdex::get_ptr(a);
				VH_CHECK(c, !a, "loan", "owner kept the array it lent");
				auto l2 = std::move(l);
				if (r.coin()) { f_arr(l2, x); ahave = true; av = x; }
				break;
			}
			case 9: { auto l = stdex::get_ptr(a); Counted*& q = l; delete[] q; q = nullptr; ahave = false; break; }
			case 10: a.reset(); ahave = false; break;
			case 11: { // The moved-from loan goes first or last
				auto l = std::make_unique<decltype(stdex::get_ptr(p))>(stdex::get_ptr(p));
				auto l2 = std::make_unique<decltype(stdex::get_ptr(p))>(std::move(*l));
				auto k = std::make_unique<decltype(stdex::get_ptr(a))>(stdex::get_ptr(a));
				auto k2 = std::make_unique<decltype(stdex::get_ptr(a))>(std::move(*k));
				if (r.coin()) { l.reset(); k.reset(); VH_CHECK(c, !p && !a, "loan", "moved-from loan gave the pointer back"); l2.reset(); k2.reset(); }
				else { l2.reset(); k2.reset(); VH_CHECK(c, static_cast<bool>(p) == have && static_cast<bool>(a) == ahave, "loan", "not given back"); l.reset(); k.reset(); }
				break;
			}
			case 12: { Counted** q = stdex::get_ptr(p); (void)q; break; }
			default: p.reset(); have = false;
			}
			VH_CHECK(c, static_cast<bool>(p) == have && (!p || p->v == v), "owner", "after operation %u: owner %s, %s expected", op, p ? "owns" : "does not own", have ? "owning" : "not owning");
			VH_CHECK(c, static_cast<bool>(a) == ahave && (!a || (a[0].v == av && a[2].v == av)), "array", "after operation %u: owner %s, %s expected", op, a ? "owns" : "does not own", ahave ? "owning" : "not owning");
			VH_CHECK(c, Counted::live == (have ? 1 : 0) + (ahave ? 3 : 0), "live", "after operation %u: %d objects live", op, Counted::live);
		}
	}
	VH_CHECK(c, Counted::live == 0, "live", "%d objects live at the end", Counted::live);
	{ // Shared pointers to objects they do not own
		Counted onstack(7);
		auto s = stdex::make_shared_no_delete(&onstack);
		auto w = s;
		s.reset();
		VH_CHECK(c, w->v == 7 && w.get() == &onstack, "no-delete", "not the object given");
		w.reset();
		VH_CHECK(c, Counted::live == 1, "no-delete", "destroyed what it did not own");
		int arr[2] = { 1, 2 };
		std::unique_ptr<int[], stdex::no_delete<int[]>> u(arr);
		u.reset();
	}
	VH_CHECK(c, Counted::live == 0, "live", "%d objects live at the end", Counted::live);
	c.sig(sg);
}
VH_MAIN
