// E03: single calls for more bytes than zlib takes at once (4 GiB).
#include "fstreams.hpp"
#include <stdex/zlib.hpp>
#include <sys/mman.h>

using namespace vh;

// 1 MiB of memory repeated over an address range of any size: what is written at one place shows at all its repetitions.
struct Cyclic {
	static constexpr size_t unit = 1 << 20;
	uint8_t* p;
	size_t mapped;
	explicit Cyclic(size_t size) : mapped((size + unit - 1) / unit * unit)
	{
		int fd = memfd_create("vh", 0);
		if (fd < 0 || ftruncate(fd, unit)) { perror("memfd"); _exit(2); }
		p = static_cast<uint8_t*>(mmap(nullptr, mapped, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
		for (size_t i = 0; i < mapped; i += unit)
			if (mmap(p + i, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(2); }
		close(fd);
	}
	~Cyclic() { munmap(p, mapped); }
};

VH_GROUP(one_call, 1, 2, 1)
{
	vh::arm(600);
	auto& r = c.rng;
	const size_t total = static_cast<size_t>(UINT32_MAX) + 2 + r.below(1000000);
	Cyclic m(total);
	for (unsigned i = 0; i < 200; i++) m.p[r.below(Cyclic::unit)] = static_cast<uint8_t>(r.next());
	m.p[total % Cyclic::unit] = 1; // The end is no round place
	std::vector<uint8_t> pattern(m.p, m.p + Cyclic::unit);
	FaultStream s;
	{
		stdex::zlib_writer w(s, 1);
		size_t n = w.write(m.p, total);
		VH_CHECK(c, n == total && w.ok(), "write-big", "write(%zu) returned %zu, state %s", total, n, sname(w.state()));
	}
	// zlib's view
	uint64_t seen = 0;
	bool same = true;
	int rc = Z_OK;
	{
		z_stream z;
		memset(&z, 0, sizeof(z));
		inflateInit(&z);
		std::vector<uint8_t> b(Cyclic::unit);
		z.next_in = s.out.data();
		z.avail_in = static_cast<uInt>(s.out.size());
		while (rc == Z_OK) {
			z.next_out = b.data();
			z.avail_out = static_cast<uInt>(b.size());
			rc = inflate(&z, Z_NO_FLUSH);
			size_t k = b.size() - z.avail_out;
			if (rc == Z_OK && !k) break;
			same = same && (seen % Cyclic::unit == 0) && !memcmp(b.data(), pattern.data(), k);
			seen += k;
			if (seen > total) break;
		}
		inflateEnd(&z);
	}
	VH_CHECK(c, rc == Z_STREAM_END && seen == total && same, "writer-big", "zlib gives %d, %llu bytes, %zu expected, content %s", rc, (unsigned long long)seen, total, same ? "same" : "different");
	if (c.failed) return;
	// One call reads everything; nothing follows
	memset(m.p, 0xee, Cyclic::unit);
	FaultStream in;
	in.in = s.out;
	stdex::zlib_reader rd(in);
	size_t n = rd.read(m.p, total);
	VH_CHECK(c, n == total && rd.ok(), "read-big", "read(%zu) returned %zu, state %s", total, n, sname(rd.state()));
	VH_CHECK(c, !memcmp(m.p, pattern.data(), Cyclic::unit), "read-big-content", "content differs");
	uint8_t x;
	n = rd.read(&x, 1);
	VH_CHECK(c, n == 0 && rd.state() == state_t::eof, "read-big-end", "%zu bytes after the end, state %s", n, sname(rd.state()));
	c.count("bytes", total * 2);
	c.sig(fmt("%zu", total));
	c.sample(fmt("one write and one read of %zu bytes, %zu compressed", total, s.out.size()));
}
VH_MAIN
