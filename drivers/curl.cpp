// X01: CURL handles, lists and the library's initialization, against an account of what a stand-in for libcurl gave out and got back.
#include "vh.hpp"
#include <curl/curl.h>
#include <stdex/compat.hpp>
#include <stdex/curl.hpp>
#include <set>
using namespace vh;

static struct Account
{
	std::set<void*> handles, lists;
	long inits = 0, cleanups = 0, twice = 0, next_fails = 0, flags = 0;
} acc;

extern "C" {
	// Stand-ins: nothing is linked to the real library.
	CURLcode curl_global_init(long flags) { acc.flags = flags; if (acc.next_fails) { acc.next_fails--; return CURLE_FAILED_INIT; } acc.inits++; return CURLE_OK; }
	void curl_global_cleanup(void) { acc.cleanups++; }
	void curl_easy_cleanup(CURL* p) { if (acc.handles.erase(p)) free(p); else acc.twice++; }
	void curl_slist_free_all(struct curl_slist* p) { if (acc.lists.erase(p)) free(p); else acc.twice++; }
	const char* curl_easy_strerror(CURLcode n) { static char b[30]; snprintf(b, sizeof(b), "error %d", static_cast<int>(n)); return b; }
}
static CURL* easy() { auto p = malloc(8); acc.handles.insert(p); return p; }
static struct curl_slist* list() { auto p = static_cast<struct curl_slist*>(malloc(sizeof(struct curl_slist))); acc.lists.insert(p); return p; }

VH_GROUP(curl, 4000, 40000, 1000)
{
	auto& r = c.rng;
	acc = Account();
	std::string trace;
	{
		std::vector<stdex::curl> h(3);
		std::vector<stdex::curl_slist> l(3);
		std::vector<std::unique_ptr<stdex::curl_initializer>> init;
		long alive = 0, done = 0;
		for (unsigned i = 0, n = 3 + static_cast<unsigned>(r.below(25)); i < n && !c.failed; i++) {
			size_t a = r.below(3), b = r.below(3);
			unsigned op = static_cast<unsigned>(r.below(10));
			trace += fmt(" %u:%zu%zu", op, a, b);
			switch (op) {
			case 0: h[a].reset(easy()); break;
			case 1: l[a].reset(list()); break;
			case 2: h[a] = std::move(h[b]); break;
			case 3: l[a] = std::move(l[b]); break;
			case 4: h[a].swap(h[b]); l[b].swap(l[a]); break;
			case 5: { stdex::curl t(easy()), u(std::move(t)); if (r.coin()) h[a] = std::move(u); break; }
			case 6: h[a].reset(); l[b].reset(); break;
			case 7: if (!init.empty()) { init.pop_back(); done++; alive--; } break;
			case 8: {
				acc.next_fails = r.coin();
				bool fails = acc.next_fails;
				long flags = static_cast<long>(r.below(8));
				CURLcode code = CURLE_OK;
				std::string what;
				try { init.emplace_back(new stdex::curl_initializer(flags)); alive++; }
				catch (const stdex::curl_runtime_error& e) { code = e.number(); what = e.what(); }
				if ((code == CURLE_FAILED_INIT) != fails) c.fail("init", "initialization that %s reported %d", fails ? "failed" : "succeeded", static_cast<int>(code));
				if (fails && what.find("error 2") == std::string::npos) c.fail("init-message", "message is %s", what.c_str());
				if (acc.flags != flags) c.fail("init-flags", "flags %ld passed as %ld", flags, acc.flags);
				break;
			}
			default:
				try { // A guard in a scope that is left by an exception
					stdex::curl_initializer g(CURL_GLOBAL_ALL);
					stdex::curl t(easy());
					stdex::curl_slist u(list());
					if (r.coin()) throw 1;
				}
				catch (int) {}
				done++;
			}
			size_t hn = 0, ln = 0;
			for (auto& x : h) if (x) { hn++; if (!acc.handles.count(x.get())) c.fail("handle-released", "a handle in use was released;%s", trace.c_str()); }
			for (auto& x : l) if (x) { ln++; if (!acc.lists.count(x.get())) c.fail("list-released", "a list in use was released;%s", trace.c_str()); }
			if (acc.handles.size() != hn || acc.lists.size() != ln) c.fail("handle-leaked", "%zu handles and %zu lists are open, %zu and %zu are held;%s", acc.handles.size(), acc.lists.size(), hn, ln, trace.c_str());
			if (acc.inits - acc.cleanups != alive || acc.cleanups != done) c.fail("init-balance", "%ld initialized, %ld cleaned up, %ld guards alive, %ld gone;%s", acc.inits, acc.cleanups, alive, done, trace.c_str());
			if (acc.twice) c.fail("released-twice", "something was released that was not open;%s", trace.c_str());
		}
	}
	if (!acc.handles.empty() || !acc.lists.empty() || acc.inits != acc.cleanups || acc.twice) c.fail("end", "%zu handles and %zu lists open, %ld of %ld cleaned up at the end;%s", acc.handles.size(), acc.lists.size(), acc.cleanups, acc.inits, trace.c_str());
	for (auto p : acc.handles) free(p);
	for (auto p : acc.lists) free(p);
	c.count("operations", 1);
	c.sig(trace);
}
VH_MAIN
