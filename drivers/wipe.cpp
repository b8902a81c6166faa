// X02: memory released by sanitizing_allocator and sanitizing_blob holds none of its content. Monitor: replaced operator new and delete.
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/memory.hpp>

using namespace vh;

// wipe_new.cpp. Only blocks allocated while watching are examined: those belong to the container under test.
extern bool watching;
extern uint64_t released, dirty, dirty_bytes, bytes;
std::map<void*, size_t>& blocks();

template <class T> using vec = std::vector<T, stdex::sanitizing_allocator<T>>;
using str = std::basic_string<char, std::char_traits<char>, stdex::sanitizing_allocator<char>>;
using wstr = std::basic_string<wchar_t, std::char_traits<wchar_t>, stdex::sanitizing_allocator<wchar_t>>;

template <class V> static void vector_ops(Rng& r, uint64_t& sg)
{
	using T = typename V::value_type;
	V v;
	for (size_t n = 1 + r.below(12); n; --n) {
		unsigned op = static_cast<unsigned>(r.below(7));
		size_t k = r.size(300);
		sg = mix(sg ^ op ^ k << 8);
		T x = static_cast<T>(r.next() | 1);
		switch (op) {
		case 0: v.push_back(x); break;
		case 1: v.insert(v.begin() + r.below(v.size() + 1), k, x); break;
		case 2: v.assign(k, x); break;
		case 3: v.shrink_to_fit(); break;
		case 4: v = V(k, x); break;
		case 5: { V w(v); w.push_back(x); v.swap(w); break; }
		default: v.resize(k, x);
		}
	}
}
static void report(Case& c, const char* what)
{
	VH_CHECK(c, !dirty, what, "%llu of %llu released blocks held %llu bytes of their content", (unsigned long long)dirty, (unsigned long long)released, (unsigned long long)dirty_bytes);
	c.count("released_blocks", released);
	c.count("released_bytes", bytes);
}
static void reset() { blocks().clear(); released = dirty = dirty_bytes = bytes = 0; }

VH_GROUP(containers, 20000, 200000, 2000)
{
	auto& r = c.rng;
	reset();
	uint64_t sg = 1;
	watching = true;
	switch (r.below(7)) {
	case 0: vector_ops<vec<uint8_t>>(r, sg); break;
	case 1: vector_ops<vec<uint64_t>>(r, sg); break;
	case 2: vector_ops<vec<wchar_t>>(r, sg); break;
	case 3: vector_ops<str>(r, sg); break;
	case 4: vector_ops<wstr>(r, sg); break;
	case 5: {
		std::list<uint64_t, stdex::sanitizing_allocator<uint64_t>> l;
		for (size_t n = r.below(40); n; --n) { if (r.chance(1, 3) && !l.empty()) l.pop_front(); else l.push_back(r.next() | 1); sg = mix(sg ^ l.size()); }
		break;
	}
	default: {
		std::map<int, uint64_t, std::less<int>, stdex::sanitizing_allocator<std::pair<const int, uint64_t>>> m;
		for (size_t n = r.below(40); n; --n) { int k = static_cast<int>(r.below(20)); if (r.chance(1, 3)) m.erase(k); else m[k] = r.next(); sg = mix(sg ^ k); }
	}
	}
	watching = false;
	report(c, "allocator");
	if (released > 1) c.sig(sg);
}

template <size_t N> struct holder { stdex::sanitizing_blob<N> b; };
template <size_t N> static void blob(Case& c)
{
	auto& r = c.rng;
	auto v = r.bytes(N);
	v[r.below(N)] |= 1;
	watching = true;
	auto p = std::make_unique<holder<N>>();
	watching = false;
	bool zero = true;
	for (auto b : p->b.m_data) zero &= !b;
	VH_CHECK(c, zero, "blob-new", "a new blob of %zu bytes is not zero", N);
	memcpy(p->b.m_data, v.data(), N);
	watching = true;
	p.reset();
	watching = false;
	report(c, "blob");
	c.sig(hash_bytes(v.data(), N, N));
}
VH_GROUP(blobs, 20000, 200000, 1000)
{
	reset();
	switch (c.rng.below(6)) {
	case 0: blob<1>(c); break;
	case 1: blob<7>(c); break;
	case 2: blob<16>(c); break;
	case 3: blob<32>(c); break;
	case 4: blob<100>(c); break;
	default: blob<4096>(c);
	}
}
VH_MAIN
