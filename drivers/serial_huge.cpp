// S05: strings and collections up to and beyond what a 32-bit length prefix tells.
#include "fstreams.hpp"
#include <sys/mman.h>
using namespace vh;

// Memory that costs nothing until it is touched
template <class T> struct Lazy
{
	using value_type = T;
	Lazy() = default;
	template <class U> Lazy(const Lazy<U>&) {}
	T* allocate(size_t n)
	{
		void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) throw std::bad_alloc();
		return static_cast<T*>(p);
	}
	void deallocate(T* p, size_t n) { munmap(p, n * sizeof(T)); }
	template <class U> void construct(U*) {}
	template <class U> void destroy(U*) {}
	bool operator==(const Lazy&) const { return true; }
	bool operator!=(const Lazy&) const { return false; }
};
template <class T> struct Untouched : std::char_traits<T>
{
	using std::char_traits<T>::assign;
	static T* assign(T* p, size_t, T) { return p; } // Fresh pages are zero anyway.
};
template <class T> using lazy_string = std::basic_string<T, Untouched<T>, Lazy<T>>;

// Counts what it is given, and looks at the first bytes only.
struct Counter : sx::basic
{
	uint64_t total = 0;
	uint8_t head[4] = {};
	const void* body = nullptr;
	Counter() { m_state = state_t::ok; }
	size_t write(const void* data, size_t length) override
	{
		for (size_t i = 0; i < length && total + i < 4; i++) head[total + i] = static_cast<const uint8_t*>(data)[i];
		if (total == 4) body = data;
		total += length;
		m_state = state_t::ok;
		return length;
	}
	uint32_t prefix() const { return head[0] | head[1] << 8 | head[2] << 16 | static_cast<uint32_t>(head[3]) << 24; }
};

// The same page over and over
template <class T> struct Repeated
{
	char* base;
	size_t whole;
	static constexpr size_t block = 16 << 20;
	Repeated(size_t n, T ch)
	{
		whole = (n * sizeof(T) / block + 1) * block;
		int h = memfd_create("vh", 0);
		if (h < 0 || ftruncate(h, block)) { perror("memfd"); _exit(2); }
		base = static_cast<char*>(mmap(nullptr, whole, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (base == MAP_FAILED) { perror("mmap"); _exit(2); }
		for (size_t o = 0; o < whole; o += block)
			if (mmap(base + o, block, PROT_READ | PROT_WRITE, (o + block < whole ? MAP_SHARED : MAP_PRIVATE) | MAP_FIXED, h, 0) == MAP_FAILED) { perror("mmap"); _exit(2); }
		for (size_t i = 0; i < block / sizeof(T); i++) reinterpret_cast<T*>(base)[i] = ch;
		close(h);
		reinterpret_cast<T*>(base)[n] = 0; // In the private block
	}
	~Repeated() { munmap(base, whole); }
	const T* get() const { return reinterpret_cast<const T*>(base); }
};

template <class F> static void check_one(Case& c, const char* what, size_t n, size_t unit, const void* body, F&& write)
{
	Counter s;
	bool threw = false;
	try { write(s); }
	catch (const std::invalid_argument&) { threw = true; }
	if (n > UINT32_MAX)
		VH_CHECK(c, threw && !s.total, "huge:accepted", "%s of %zu items: %s, %llu bytes written with length %lu", what, n, threw ? "refused" : "accepted", (unsigned long long)s.total, (unsigned long)s.prefix());
	else
		VH_CHECK(c, !threw && s.ok() && s.prefix() == n && s.total == 4 + static_cast<uint64_t>(n) * unit && (!body || s.body == body), "huge:length", "%s of %zu items: %s, %llu bytes written with length %lu", what, n, threw ? "refused" : "accepted", (unsigned long long)s.total, (unsigned long)s.prefix());
}
template <class T> static void string_of(Case& c, size_t n)
{
	lazy_string<T> v;
	v.resize(n);
	check_one(c, "string", n, sizeof(T), v.data(), [&](sx::basic& s) { c.rng.coin() ? s.write_str(v) : s << v; });
	if (n > UINT32_MAX) {
		sx::memory_file f;
		bool threw = false;
		try { c.rng.coin() ? f.write_str(v) : f << v; }
		catch (const std::invalid_argument&) { threw = true; }
		VH_CHECK(c, threw && !f.size() && !f.tell(), "huge:accepted", "string of %zu items to memory: %s, size %llu", n, threw ? "refused" : "accepted", (unsigned long long)f.size());
	}
}
template <class T> static void pointer_of(Case& c, size_t n)
{
	Repeated<T> v(n, 'a');
	check_one(c, "zero-terminated string", n, sizeof(T), v.get(), [&](sx::basic& s) { c.rng.coin() ? s.write_str(v.get()) : s << v.get(); });
	if (n > UINT32_MAX) {
		sx::memory_file f;
		bool threw = false;
		try { f.write_str(v.get()); }
		catch (const std::invalid_argument&) { threw = true; }
		VH_CHECK(c, threw && !f.size() && !f.tell(), "huge:accepted", "zero-terminated string of %zu items to memory: %s, size %llu", n, threw ? "refused" : "accepted", (unsigned long long)f.size());
	}
}
static size_t near_limit(Rng& r)
{
	return r.coin() ? static_cast<size_t>(UINT32_MAX) - static_cast<size_t>(r.below(3)) : r.coin() ? static_cast<size_t>(UINT32_MAX) + 1 + static_cast<size_t>(r.below(20)) : 2 * (static_cast<size_t>(UINT32_MAX) + 1) + static_cast<size_t>(r.below(3));
}
VH_GROUP(strings, 24, 100, 12)
{
	auto& r = c.rng;
	size_t n = near_limit(r);
	unsigned k = static_cast<unsigned>(r.below(3));
	if (k == 0) string_of<char>(c, n);
	else if (k == 1) string_of<char16_t>(c, n);
	else string_of<wchar_t>(c, n);
	c.sig(mix(n) ^ k);
}
VH_GROUP(pointers, 4, 12, 2)
{
	auto& r = c.rng;
	size_t n = c.index % 2 ? static_cast<size_t>(UINT32_MAX) + 1 + static_cast<size_t>(r.below(20)) : static_cast<size_t>(UINT32_MAX) - static_cast<size_t>(r.below(3));
	if (c.index % 4 < 2) pointer_of<char>(c, n);
	else pointer_of<char16_t>(c, n);
	c.sig(mix(n) ^ c.index);
}
VH_GROUP(collections, 2, 4, 1)
{
	size_t n = static_cast<size_t>(UINT32_MAX) + 1 + static_cast<size_t>(c.rng.below(20));
	std::vector<uint8_t, Lazy<uint8_t>> v(n);
	check_one(c, "collection", n, 1, nullptr, [&](sx::basic& s) { s << v; });
	c.sig(n);
}
VH_MAIN
