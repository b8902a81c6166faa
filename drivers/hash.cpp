// H01: message digests equal the published algorithms for every message and every chunking.
#include "fstreams.hpp"
#include <openssl/evp.h>
#include <stdex/hash.hpp>
#include <stdex/stream.hpp>
#include <zlib.h>

template <class H> struct Ref;
template <> struct Ref<stdex::crc32_hash>
{
	static std::vector<uint8_t> get(const std::vector<uint8_t>& m)
	{
		uint32_t c = static_cast<uint32_t>(crc32_z(0, m.empty() ? reinterpret_cast<const Bytef*>("") : m.data(), m.size()));
		std::vector<uint8_t> r(4);
		memcpy(r.data(), &c, 4);
		return r;
	}
	static constexpr const char* name = "crc32";
};
static std::vector<uint8_t> evp(const EVP_MD* md, const std::vector<uint8_t>& m)
{
	std::vector<uint8_t> r(EVP_MAX_MD_SIZE);
	unsigned n = 0;
	EVP_Digest(m.data(), m.size(), r.data(), &n, md, nullptr);
	r.resize(n);
	return r;
}
template <> struct Ref<stdex::md5_hash>
{
	static std::vector<uint8_t> get(const std::vector<uint8_t>& m) { return evp(EVP_md5(), m); }
	static constexpr const char* name = "md5";
};
template <> struct Ref<stdex::sha1_hash>
{
	static std::vector<uint8_t> get(const std::vector<uint8_t>& m) { return evp(EVP_sha1(), m); }
	static constexpr const char* name = "sha1";
};

template <class H>
static std::vector<uint8_t> value(H& h)
{
	std::vector<uint8_t> r(sizeof(h.data()));
	memcpy(r.data(), &h.data(), r.size());
	return r;
}

static size_t msg_len(vh::Rng& r)
{
	switch (r.below(5)) {
	case 0: return static_cast<size_t>(std::max<int64_t>(0, 64 * r.range(0, 6) + r.range(-10, 2)));
	case 1: return static_cast<size_t>(r.below(5000));
	default: return static_cast<size_t>(r.below(200));
	}
}

template <class H>
static void one(vh::Case& c)
{
	auto& r = c.rng;
	H h;
	unsigned rounds = 1 + static_cast<unsigned>(r.below(3));
	for (unsigned k = 0; k < rounds; k++) {
		auto m = r.bytes(msg_len(r));
		auto ref = Ref<H>::get(m);
		if (k || r.coin())
			h.clear();
		uint64_t sg = vh::hash_str(Ref<H>::name);
		std::string how;
		unsigned mode = static_cast<unsigned>(r.below(4));
		size_t chunk = 1 + r.size(300);
		auto next_chunk = [&](size_t left) -> size_t {
			size_t n = mode == 0 ? left : mode == 1 ? 1 : mode == 2 ? chunk : r.size(130);
			return std::min(n, left);
		};
		unsigned via = static_cast<unsigned>(r.below(5));
		if (via == 0) {
			for (size_t i = 0; i < m.size();) {
				size_t n = next_chunk(m.size() - i);
				vh::Exact<uint8_t> part(m.data() + i, n);
				h.hash(part.data(), n);
				i += n;
				sg = vh::mix(sg ^ n);
			}
			if (m.empty() && r.coin())
				h.hash(nullptr, 0);
		}
		else if (via == 1) {
			stdex::stream::memory_file f;
			f.write_array(m.data(), 1, m.size());
			f.seek(0);
			stdex::stream_hasher<typename std::remove_const<typename std::remove_reference<decltype(h.data())>::type>::type> s(h, f);
			std::vector<uint8_t> got;
			for (;;) {
				size_t n = std::max<size_t>(1, next_chunk(m.size()));
				std::vector<uint8_t> b(n);
				size_t x = s.read(b.data(), n);
				sg = vh::mix(sg ^ x);
				if (!x) break;
				got.insert(got.end(), b.begin(), b.begin() + x);
			}
			VH_CHECK(c, got == m, "hasher-read-data", "data read through a hashing stream differ: %zu vs %zu bytes", got.size(), m.size());
		}
		else if (via == 3) { // The other side delivers or accepts a part: what passed is what is hashed
			vh::FaultStream f;
			stdex::stream_hasher<typename std::remove_const<typename std::remove_reference<decltype(h.data())>::type>::type> s(h, f);
			const size_t fault = r.coin() ? static_cast<size_t>(r.below(m.size() + 1)) : SIZE_MAX;
			std::vector<uint8_t> passed;
			if (r.coin()) {
				f.in = m;
				f.read_rng = r.coin() ? r.next() | 1 : 0;
				f.fail_read_at = fault;
				f.end_with_data = r.coin();
				for (unsigned idle = 0; idle < 2;) {
					size_t n = std::max<size_t>(1, next_chunk(m.size() + 10));
					vh::Exact<uint8_t> b(std::vector<uint8_t>(n, 0xa5));
					size_t x = s.read(b.data(), n);
					if (x > n) { c.fail("hasher-read-count", "read of %zu bytes returned %zu", n, x); break; }
					passed.insert(passed.end(), b.data(), b.data() + x);
					sg = vh::mix(sg ^ x);
					if (!x) idle++;
				}
				VH_CHECK(c, passed.size() == std::min(fault, m.size()) && std::equal(passed.begin(), passed.end(), m.begin()), "hasher-read-data", "%zu bytes read through a hashing stream, %zu delivered", passed.size(), std::min(fault, m.size()));
			}
			else {
				f.fail_write_at = fault;
				f.transient = r.coin();
				for (size_t i = 0; i < m.size();) {
					size_t n = std::max<size_t>(1, next_chunk(m.size() - i));
					size_t x = s.write(m.data() + i, n);
					VH_CHECK(c, s.ok() == (x == n), "hasher-write-state", "write of %zu bytes returned %zu and state %s", n, x, vh::sname(s.state()));
					i += n;
					sg = vh::mix(sg ^ x);
				}
				passed = f.out;
			}
			m = passed;
			ref = Ref<H>::get(m);
			c.count("partial");
		}
		else {
			stdex::stream::memory_file f;
			{
				stdex::stream_hasher<typename std::remove_const<typename std::remove_reference<decltype(h.data())>::type>::type> s(h, f);
				for (size_t i = 0; i < m.size();) {
					size_t n = std::max<size_t>(1, next_chunk(m.size() - i));
					size_t x = s.write(m.data() + i, n);
					VH_CHECK(c, x == n, "hasher-write-count", "write of %zu bytes to memory returned %zu", n, x);
					if (!x) break;
					i += x;
					sg = vh::mix(sg ^ n);
				}
			}
			VH_CHECK(c, f.size() == m.size() && (m.empty() || !memcmp(f.data(), m.data(), m.size())), "hasher-write-data", "data written through a hashing stream differ");
		}
		h.finalize();
		auto got = value(h);
		c.count("digests");
		if (!m.empty()) c.sig(vh::mix(sg ^ m.size() ^ (via << 20)));
		VH_CHECK(c, got == ref, std::string("digest:") + Ref<H>::name, "%s of %zu bytes (mode %u via %u round %u) is %s, want %s: %s", Ref<H>::name, m.size(), mode, via, k,
			vh::show(got).c_str(), vh::show(ref).c_str(), vh::show(m, 40).c_str());
		VH_CHECK(c, H::size() == ref.size(), "size", "digest size");
		if (k == 0) c.sample(vh::fmt("%s len=%zu chunk mode=%u via=%u", Ref<H>::name, m.size(), mode, via));
	}
}

VH_GROUP(crc32, 1500, 30000, 400) { one<stdex::crc32_hash>(c); }
VH_GROUP(md5, 2500, 60000, 800) { one<stdex::md5_hash>(c); }
VH_GROUP(sha1, 2500, 60000, 800) { one<stdex::sha1_hash>(c); }

// Every length across the padding boundaries, exhaustively, in one call and in two.
VH_GROUP(lengths, 400, 1200, 300)
{
	size_t n = static_cast<size_t>(c.index);
	std::vector<uint8_t> m(n);
	for (auto& x : m) x = static_cast<uint8_t>(c.rng.next());
	auto go = [&](auto h, const char* name, const std::vector<uint8_t>& ref) {
		h.hash(m.data(), n);
		h.finalize();
		VH_CHECK(c, value(h) == ref, std::string("digest:") + name, "%s of %zu bytes in one call", name, n);
		h.clear();
		size_t k = n ? static_cast<size_t>(c.rng.below(n + 1)) : 0;
		h.hash(m.data(), k);
		h.hash(m.data() + k, n - k);
		h.finalize();
		VH_CHECK(c, value(h) == ref, std::string("digest:") + name, "%s of %zu bytes split at %zu", name, n, k);
		c.count("digests", 2);
	};
	go(stdex::crc32_hash(), "crc32", Ref<stdex::crc32_hash>::get(m));
	go(stdex::md5_hash(), "md5", Ref<stdex::md5_hash>::get(m));
	go(stdex::sha1_hash(), "sha1", Ref<stdex::sha1_hash>::get(m));
	c.sig(n);
}

// Digest values compare by content and survive serialization.
VH_GROUP(values, 400, 4000, 200)
{
	auto go = [&](auto a) {
		using D = decltype(a);
		auto b = a;
		for (size_t i = 0; i < sizeof(D); i++) a.data8[i] = static_cast<uint8_t>(c.rng.next());
		memcpy(&b, &a, sizeof(D));
		VH_CHECK(c, a == b && !(a != b), "digest-compare", "equal digests compare different");
		size_t i = static_cast<size_t>(c.rng.below(sizeof(D)));
		b.data8[i] ^= static_cast<uint8_t>(1u << c.rng.below(8));
		VH_CHECK(c, a != b && !(a == b), "digest-compare", "digests differing in byte %zu compare equal", i);
		stdex::stream::memory_file f;
		static_cast<stdex::stream::basic&>(f) << a;
		f.seek(0);
		static_cast<stdex::stream::basic&>(f) >> b;
		VH_CHECK(c, f.ok() && a == b && f.size() == sizeof(D), "digest-serialize", "digest does not survive serialization");
		// Cut short: reported. Behind a failure: nothing of what was there.
		f.seek(static_cast<stdex::stream::foff_t>(c.rng.below(sizeof(D))));
		f.truncate();
		f.seek(0);
		static_cast<stdex::stream::basic&>(f) >> b;
		VH_CHECK(c, !f.ok(), "digest-cut", "digest cut to %llu bytes read without failure", (unsigned long long)f.size());
		b = a;
		auto at = f.tell();
		static_cast<stdex::stream::basic&>(f) >> b;
		D zero;
		memset(static_cast<void*>(&zero), 0, sizeof(D));
		VH_CHECK(c, !f.ok() && f.tell() == at && b == zero, "digest-failed", "digest read behind a failure is not zero");
		auto n = f.size();
		static_cast<stdex::stream::basic&>(f) << a;
		VH_CHECK(c, !f.ok() && f.size() == n, "digest-failed", "digest written behind a failure");
		c.sig(vh::hash_bytes(&a, sizeof(D)));
	};
	go(stdex::md5_t());
	go(stdex::sha1_t());
	go(stdex::sha256_t());
	// Continuing a CRC from an intermediate value.
	auto m = c.rng.bytes(c.rng.size(300));
	size_t k = static_cast<size_t>(c.rng.below(m.size() + 1));
	stdex::crc32_hash h1;
	h1.hash(m.data(), k);
	h1.finalize();
	stdex::crc32_hash h2(h1.data());
	h2.hash(m.data() + k, m.size() - k);
	h2.finalize();
	VH_CHECK(c, value(h2) == Ref<stdex::crc32_hash>::get(m), "crc32-continue", "CRC continued at %zu of %zu differs", k, m.size());
}
VH_MAIN
