// H01: volumes past 2^32 bits, in many calls and in one.
#include "vh.hpp"
#include <openssl/evp.h>
#include <stdex/hash.hpp>
#include <sys/mman.h>

template <class H>
static void big(vh::Case& c, const EVP_MD* md, const char* name, uint64_t total, size_t chunk, const char* known = nullptr)
{
	vh::arm(300);
	// An anonymous read-only mapping: every page is the zero page, so the size costs no memory.
	size_t mapped = std::max<size_t>(chunk, 1 << 20);
	void* p = mmap(nullptr, mapped, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
	H h;
	EVP_MD_CTX* x = EVP_MD_CTX_new();
	if (!known) EVP_DigestInit_ex(x, md, nullptr);
	for (uint64_t left = total; left;) {
		size_t n = static_cast<size_t>(std::min<uint64_t>(left, chunk));
		h.hash(p, n);
		if (!known) EVP_DigestUpdate(x, p, n);
		left -= n;
	}
	h.finalize();
	unsigned char ref[EVP_MAX_MD_SIZE];
	unsigned rn = 0;
	if (!known) EVP_DigestFinal_ex(x, ref, &rn);
	else for (; known[rn * 2]; rn++) ref[rn] = static_cast<unsigned char>(strtoul(std::string(known + rn * 2, 2).c_str(), nullptr, 16));
	EVP_MD_CTX_free(x);
	munmap(p, mapped);
	VH_CHECK(c, rn == sizeof(h.data()) && !memcmp(&h.data(), ref, rn), vh::fmt("digest-big:%s", name), "%s of %llu zero bytes in calls of %zu is wrong", name, (unsigned long long)total, chunk);
	c.sig(vh::fmt("%s %llu %zu", name, (unsigned long long)total, chunk));
	c.sample(vh::fmt("%s total=%llu chunk=%zu", name, (unsigned long long)total, chunk));
	c.count("bytes", total);
}

VH_GROUP(wrap_md5, 1, 2, 1) { big<stdex::md5_hash>(c, EVP_md5(), "md5", 536870912ull + 1000 + c.rng.below(100), c.index ? 65536 + 77 : 1048576 - 3); }
VH_GROUP(wrap_sha1, 1, 2, 1) { big<stdex::sha1_hash>(c, EVP_sha1(), "sha1", 536870912ull + 1000 + c.rng.below(100), c.index ? 65536 + 77 : 1048576 - 3); }
// Digests of 2^30 + 1001 zero bytes, from Python's hashlib: the count of bits wraps twice on the way.
VH_GROUP(wrap_twice_md5, 1, 1, 1) { big<stdex::md5_hash>(c, EVP_md5(), "md5", 1073741824ull + 1001, 1048576 - 3, "478fbacc51fcfc89c81be98d5c95d320"); }
VH_GROUP(wrap_twice_sha1, 1, 1, 1) { big<stdex::sha1_hash>(c, EVP_sha1(), "sha1", 1073741824ull + 1001, 65536 + 77, "1e1b0ba48f3c0dcad950718450bbd4ace452fbf5"); }
VH_GROUP(one_call_512m, 1, 1, 1) { big<stdex::md5_hash>(c, EVP_md5(), "md5", 536870912ull + 129, 536870912ull + 129); }
// Digests of 2^32 + 77 zero bytes, from Python's hashlib.
VH_GROUP(one_call_4g_md5, 1, 1, 1) { big<stdex::md5_hash>(c, EVP_md5(), "md5", 4294967296ull + 77, 4294967296ull + 77, "11f745c55bb47196852f3866cf4b2b68"); }
VH_GROUP(one_call_4g_sha1, 1, 1, 1) { big<stdex::sha1_hash>(c, EVP_sha1(), "sha1", 4294967296ull + 77, 4294967296ull + 77, "a644b28e33e7e9284431aed0ddb92d675e7905f3"); }
VH_MAIN
