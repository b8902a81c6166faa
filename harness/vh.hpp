// Common harness for the runtime-monitoring drivers in /verif/drivers.
//
// A driver is a set of named groups. A group is a function run once per case; the case carries a PRNG
// seeded from (VERIF_SEED, group, case index), so any case replays alone. Monitors report violations
// with Case::fail(key, ...); the process goes on, so that one finding does not mask another. Crashes,
// sanitizer reports and hangs end the process; the runner (run.py) attributes them to the case in
// progress (kept in a shared mapping) and resumes after it.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <shared_mutex>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>
#include "tsan_stl.hpp"

namespace vh
{
	inline uint64_t mix(uint64_t x)
	{
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}

	inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
	{
		const uint8_t* b = static_cast<const uint8_t*>(p);
		for (size_t i = 0; i < n; i++)
			h = (h ^ b[i]) * 0x100000001b3ull;
		return mix(h ^ n);
	}
	inline uint64_t hash_str(std::string_view s, uint64_t h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }

	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t seed = 1) : s(seed) {}
		uint64_t next()
		{
			s += 0x9e3779b97f4a7c15ull;
			uint64_t x = s;
			x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
			x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
			return x ^ (x >> 31);
		}
		uint64_t below(uint64_t n) { return n ? next() % n : 0; }                          // [0, n)
		int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); } // [lo, hi]
		bool chance(unsigned num, unsigned den) { return below(den) < num; }
		bool coin() { return next() & 1; }
		double unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
		// Mostly small, sometimes large, in [0, max].
		size_t size(size_t max)
		{
			switch (below(8)) {
			case 0: return static_cast<size_t>(below(std::min<size_t>(max, 3) + 1));
			case 1: case 2: case 3: return static_cast<size_t>(below(std::min<size_t>(max, 16) + 1));
			case 4: case 5: return static_cast<size_t>(below(std::min<size_t>(max, 80) + 1));
			default: return static_cast<size_t>(below(max + 1));
			}
		}
		template <class C> auto& pick(C& c) { return c[below(c.size())]; }
		template <class C> const auto& pick(const C& c) { return c[below(c.size())]; }
		template <class T> T one(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
		std::vector<uint8_t> bytes(size_t n)
		{
			std::vector<uint8_t> v(n);
			switch (below(6)) {
			case 0: { uint8_t b = static_cast<uint8_t>(next()); for (auto& x : v) x = b; break; }
			case 1: for (auto& x : v) x = static_cast<uint8_t>("abAB01 \r\n\0\xff"[below(11)]); break;
			default: for (auto& x : v) x = static_cast<uint8_t>(next());
			}
			return v;
		}
	};

	// Exactly-sized heap copy: any access outside of [0, n) is seen by AddressSanitizer.
	template <class T>
	struct Exact
	{
		T* p;
		size_t n;
		Exact(const T* src, size_t _n) : p(static_cast<T*>(malloc(_n * sizeof(T) ? _n * sizeof(T) : 1))), n(_n)
		{
			if (n) memcpy(static_cast<void*>(p), src, n * sizeof(T));
		}
		explicit Exact(const std::basic_string<T>& s) : Exact(s.data(), s.size()) {}
		explicit Exact(const std::vector<T>& s) : Exact(s.data(), s.size()) {}
		Exact(const Exact&) = delete;
		Exact& operator=(const Exact&) = delete;
		~Exact() { free(p); }
		T* data() { return p; }
		operator T*() { return p; }
	};

	struct Shared // One per process, in a file mapping read by the runner.
	{
		volatile uint64_t cur;      // Case in progress
		volatile uint64_t done;     // Cases completed
		volatile uint64_t finished; // Group completed
	};

	struct State
	{
		std::string group;
		uint64_t seed = 1;
		bool thorough = false;
		bool verbose = false;
		void (*prelude)(struct Case&, void (*)(struct Case&)) = nullptr; // Runs ahead of each case
		uint64_t cases = 0, done = 0;
		std::mutex mtx;
		std::unordered_set<uint64_t> sigs;
		std::vector<std::string> samples;
		std::map<std::string, uint64_t> counters;
		uint64_t violations = 0, sig_calls = 0;
		std::map<std::string, unsigned> per_key;
		std::string out_path;
		Shared* shared = nullptr;
		Shared local{};
	};
	inline State& st() { static State s; return s; }

	inline std::string vformat(const char* f, va_list ap)
	{
		va_list ap2;
		va_copy(ap2, ap);
		int n = vsnprintf(nullptr, 0, f, ap2);
		va_end(ap2);
		std::string s(n > 0 ? n : 0, '\0');
		if (n > 0) vsnprintf(&s[0], s.size() + 1, f, ap);
		return s;
	}
	__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...)
	{
		va_list ap;
		va_start(ap, f);
		auto s = vformat(f, ap);
		va_end(ap);
		return s;
	}

	template <class T>
	inline std::string show(const T* p, size_t n, size_t max = 160)
	{
		std::string r = "\"";
		for (size_t i = 0; i < n && i < max; i++) {
			uint32_t c = static_cast<uint32_t>(static_cast<typename std::conditional<sizeof(T) == 1, uint8_t, typename std::conditional<sizeof(T) == 2, uint16_t, uint32_t>::type>::type>(p[i]));
			if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
			else if (c >= 0x20 && c < 0x7f) r += static_cast<char>(c);
			else if (c < 0x100) r += fmt("\\x%02x", c);
			else r += fmt("\\u{%x}", c);
		}
		r += n > max ? fmt("\"...(%zu)", n) : "\"";
		return r;
	}
	template <class T> inline std::string show(const std::basic_string<T>& s, size_t max = 160) { return show(s.data(), s.size(), max); }
	template <class T> inline std::string show(const std::vector<T>& s, size_t max = 160) { return show(s.data(), s.size(), max); }

	struct Case
	{
		uint64_t index;
		Rng rng;
		bool failed = false;
		bool ghost = false; // Run ahead of a case for its inputs only: nothing is reported

		Case(uint64_t i, uint64_t seed) : index(i), rng(seed) {}

		bool thorough() const { return st().thorough; }

		// A violation. `key` names what failed, stably (it is matched against known_findings.json).
		__attribute__((format(printf, 3, 4))) void fail(const std::string& key, const char* f, ...)
		{
			if (ghost) return;
			va_list ap;
			va_start(ap, f);
			auto msg = vformat(f, ap);
			va_end(ap);
			for (auto& ch : msg) if (ch == '\n' || ch == '\r') ch = ' ';
			auto& s = st();
			std::lock_guard<std::mutex> lk(s.mtx);
			failed = true;
			s.violations++;
			if (s.per_key[key]++ < 3)
				printf("@@VIOL\t%s\t%s\t%llu\t%s\n", s.group.c_str(), key.c_str(), static_cast<unsigned long long>(index), msg.c_str()), fflush(stdout);
		}

		// Case is non-trivial; h identifies what was distinct about it.
		void sig(uint64_t h)
		{
			if (ghost) return;
			auto& s = st();
			std::lock_guard<std::mutex> lk(s.mtx);
			s.sig_calls++;
			if (s.sigs.size() < 2000000) s.sigs.insert(h);
		}
		void sig(std::string_view v) { sig(hash_str(v)); }

		void sample(const std::string& text)
		{
			if (ghost) return;
			auto& s = st();
			std::lock_guard<std::mutex> lk(s.mtx);
			if (s.samples.size() < 2) s.samples.push_back(text);
		}

		void count(const char* name, uint64_t n = 1)
		{
			if (ghost) return;
			auto& s = st();
			std::lock_guard<std::mutex> lk(s.mtx);
			s.counters[name] += n;
		}
	};

#define VH_CHECK(c, cond, key, ...) do { if (!(cond)) (c).fail(key, __VA_ARGS__); } while (0)

	struct Group
	{
		std::string name;
		uint64_t quick, thorough;
		uint64_t min_distinct; // Fewer distinct non-trivial cases than this in a complete run: the run decided nothing
		void (*fn)(Case&);
	};
	inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
	struct Reg
	{
		Reg(const char* name, uint64_t quick, uint64_t thorough, uint64_t min_distinct, void (*fn)(Case&)) { groups().push_back({ name, quick, thorough, min_distinct, fn }); }
	};
#define VH_GROUP(name, quick, thorough, mind) \
	static void grp_##name(vh::Case& c); \
	static vh::Reg reg_##name(#name, quick, thorough, mind, grp_##name); \
	static void grp_##name(vh::Case& c)

	inline std::string json_str(std::string_view s)
	{
		std::string r = "\"";
		for (unsigned char ch : s) {
			if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
			else if (ch < 0x20 || ch >= 0x7f) r += fmt("\\u%04x", ch);
			else r += static_cast<char>(ch);
		}
		return r + "\"";
	}

	inline void write_out()
	{
		auto& s = st();
		if (s.out_path.empty()) return;
		std::string j = "{\"group\":" + json_str(s.group) + fmt(",\"evaluations\":%llu,\"violations\":%llu,\"sigs\":[", (unsigned long long)std::max(s.done, s.sig_calls), (unsigned long long)s.violations);
		bool first = true;
		for (auto h : s.sigs) { if (!first) j += ','; first = false; j += fmt("\"%llx\"", (unsigned long long)h); }
		j += "],\"samples\":[";
		first = true;
		for (auto& t : s.samples) { if (!first) j += ','; first = false; j += json_str(t.substr(0, 600)); }
		j += "],\"counters\":{";
		first = true;
		for (auto& t : s.counters) { if (!first) j += ','; first = false; j += json_str(t.first) + fmt(":%llu", (unsigned long long)t.second); }
		j += "}}\n";
		auto tmp = s.out_path + ".tmp";
		if (FILE* f = fopen(tmp.c_str(), "w")) {
			fwrite(j.data(), 1, j.size(), f);
			fclose(f);
			rename(tmp.c_str(), s.out_path.c_str());
		}
	}

	// CPU-time limit per case: independent of machine load. A case normally takes well under a second.
	constexpr int case_cpu_limit_s = 20;
	inline void on_prof(int)
	{
		static const char m[] = "\n@@HANG cpu\n";
		ssize_t r = write(1, m, sizeof(m) - 1);
		(void)r;
		_exit(97);
	}
	inline void arm(int seconds = case_cpu_limit_s)
	{
		itimerval t{};
		t.it_value.tv_sec = seconds;
		setitimer(ITIMER_PROF, &t, nullptr);
	}

	inline int main(int argc, char** argv)
	{
		auto& s = st();
		uint64_t from = 0, to = UINT64_MAX, only = UINT64_MAX, step = 1;
		std::string shared_path;
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i];
			auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--list") {
				for (auto& g : groups())
					printf("%s\t%llu\t%llu\t%llu\n", g.name.c_str(), (unsigned long long)g.quick, (unsigned long long)g.thorough, (unsigned long long)g.min_distinct);
				return 0;
			}
			else if (a == "--group") s.group = val();
			else if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--from") from = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--to") to = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--step") step = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--only") only = strtoull(val().c_str(), nullptr, 10);
			else if (a == "--thorough") s.thorough = true;
			else if (a == "--out") s.out_path = val();
			else if (a == "--shared") shared_path = val();
			else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
		}
		s.shared = &s.local;
		if (!shared_path.empty()) {
			int fd = open(shared_path.c_str(), O_RDWR | O_CREAT, 0600);
			if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("shared"); return 2; }
			s.shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
			close(fd);
		}
		signal(SIGPIPE, SIG_IGN);
		signal(SIGPROF, on_prof);
		for (auto& g : groups()) {
			if (g.name != s.group) continue;
			uint64_t n = s.thorough ? g.thorough : g.quick;
			if (only != UINT64_MAX) { from = only; n = only + 1; }
			if (to < n) n = to;
			uint64_t last = 0;
			for (uint64_t i = from; i < n; i += step) {
				s.shared->cur = i;
				arm();
				Case c(i, mix(mix(s.seed ^ hash_str(s.group)) + i));
				if (s.prelude) s.prelude(c, g.fn);
				g.fn(c);
				s.done++;
				s.shared->done = s.done;
				if (s.done - last >= 4096) { last = s.done; }
			}
			itimerval t{};
			setitimer(ITIMER_PROF, &t, nullptr);
			s.shared->finished = 1;
			write_out();
			printf("@@DONE\t%s\t%llu\n", s.group.c_str(), (unsigned long long)s.done);
			fflush(stdout);
			return 0;
		}
		fprintf(stderr, "no group %s\n", s.group.c_str());
		return 2;
	}

	// Reports a case that makes no progress: violation `key` and end of the process unless destroyed in time.
	// Time is counted in ticks of the guard thread, so that a pause of the whole machine counts for little.
	class Guard
	{
		std::mutex m;
		std::condition_variable cv;
		bool off = false;
		std::thread t;
	public:
		Guard(Case& c, const char* key, unsigned seconds = 30) : t([this, &c, key, seconds] {
			std::unique_lock<std::mutex> lk(m);
			for (unsigned i = 0; i < seconds * 20; i++) {
				auto until = std::chrono::system_clock::now() + std::chrono::milliseconds(50);
				while (!off && cv.wait_until(lk, until) != std::cv_status::timeout);
				if (off) return;
			}
			c.fail(key, "no progress for %u s", seconds);
			_exit(98);
		}) {}
		~Guard()
		{
			{
				std::lock_guard<std::mutex> lk(m);
				off = true;
			}
			cv.notify_all();
			t.join();
		}
	};

	// Random delay, to vary interleavings.
	inline void jitter(Rng& r)
	{
		switch (r.below(12)) {
		case 0: std::this_thread::yield(); break;
		case 1: for (volatile int i = static_cast<int>(r.below(400)); i > 0; i = i - 1); break;
		case 2: if (r.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
		default: break;
		}
	}

	// Scratch directory, removed at exit.
	struct Scratch
	{
		std::string path;
		Scratch()
		{
			const char* base = getenv("VH_SCRATCH");
			std::string t = std::string(base && *base ? base : "/tmp") + "/vhXXXXXX";
			std::vector<char> b(t.begin(), t.end());
			b.push_back(0);
			if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(2); }
			path = b.data();
		}
		std::string file(const char* name) const { return path + "/" + name; }
	};
	inline Scratch& scratch() { static Scratch* s = new Scratch; return *s; }
}

#define VH_MAIN int main(int argc, char** argv) { return vh::main(argc, argv); }
