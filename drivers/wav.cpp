// R02: WAV files against an independent RIFF builder and editor.
#include <new>
#include <cstdlib>
#include <algorithm>
#include <cstddef>
static thread_local size_t g_largest, g_total; // largest single request and sum of requests since reset
void* operator new(size_t n)
{
	g_largest = std::max(g_largest, n);
	g_total += n;
	if (n > (1u << 30)) throw std::bad_alloc();
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

#include "fstreams.hpp"
#include <stdex/compat.hpp>
#include <stdex/wav.hpp>

using namespace vh;
namespace wav = stdex::wav;
using bytes = std::vector<uint8_t>;

static void put(bytes& b, uint64_t v, int n) { while (n--) b.push_back(static_cast<uint8_t>(v)), v >>= 8; }
static bytes operator+(bytes a, const bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static bytes str(const std::string& s, bool zero = false) { bytes b(s.begin(), s.end()); if (zero) b.push_back(0); return b; }
static bytes chunk(const std::string& id, const bytes& d)
{
	bytes b = str(id);
	put(b, d.size(), 4);
	b = b + d;
	if (d.size() & 1) b.push_back(0);
	return b;
}
static uint32_t id4(const char* s) { uint32_t v; memcpy(&v, s, 4); return v; }
static std::string text(Rng& r, size_t max) { std::string s; for (size_t n = r.size(max); n; --n) s += static_cast<char>(1 + r.below(255)); return s; }
static bytes content(sx::memory_file& f) { auto p = static_cast<const uint8_t*>(f.data()); return bytes(p, p + f.size()); }

struct Cue : wav::cue_ex { bool has_ltxt = false; };
static bytes cue_bytes(const wav::cue& q) { bytes b; for (uint32_t v : { q.id, q.position, q.chunk_id, q.chunk_offset, q.block_start, q.block_offset }) put(b, v, 4); return b; }
static bytes ltxt_bytes(const wav::cue_ex& q)
{
	bytes b;
	put(b, q.id, 4), put(b, q.duration, 4), put(b, q.purpose_id, 4), put(b, q.country, 2), put(b, q.language, 2), put(b, q.dialect, 2), put(b, q.charset, 2);
	if (!q.description.empty()) b = b + str(q.description, true);
	return b;
}
static bytes named_bytes(uint32_t id, const std::string& s) { bytes b; put(b, id, 4); if (!s.empty()) b = b + str(s, true); return b; }
static wav::cue_ex random_cue(Rng& r, uint32_t id)
{
	wav::cue_ex q;
	q.id = id;
	q.position = static_cast<uint32_t>(r.next()); q.chunk_id = id4(r.coin() ? "data" : "slnt"); q.chunk_offset = static_cast<uint32_t>(r.next()); q.block_start = static_cast<uint32_t>(r.next()); q.block_offset = static_cast<uint32_t>(r.next());
	if (r.coin()) {
		q.duration = static_cast<uint32_t>(r.next()); q.purpose_id = id4("scrp"); q.country = static_cast<uint16_t>(r.next()); q.language = static_cast<uint16_t>(r.next()); q.dialect = static_cast<uint16_t>(r.next()); q.charset = static_cast<uint16_t>(r.next());
		q.description = text(r, 50);
	}
	if (r.coin()) q.title = text(r, 50);
	if (r.coin()) q.note = text(r, 50);
	return q;
}
static std::vector<wav::cue_ex> random_cues(Rng& r, size_t max)
{
	std::vector<wav::cue_ex> v;
	std::set<uint32_t> ids;
	for (size_t n = r.below(max + 1); n; --n) {
		uint32_t id = static_cast<uint32_t>(r.coin() ? r.below(50) : r.next());
		if (ids.insert(id).second) v.push_back(random_cue(r, id));
	}
	return v;
}
static bool same(const wav::cue_ex& a, const wav::cue_ex& b)
{
	return a.id == b.id && a.position == b.position && a.chunk_id == b.chunk_id && a.chunk_offset == b.chunk_offset && a.block_start == b.block_start && a.block_offset == b.block_offset &&
		a.duration == b.duration && a.purpose_id == b.purpose_id && a.country == b.country && a.language == b.language && a.dialect == b.dialect && a.charset == b.charset && a.description == b.description && a.title == b.title && a.note == b.note;
}
static bool same(std::vector<wav::cue_ex> a, std::vector<wav::cue_ex> b)
{
	auto less = [](auto& x, auto& y) { return x.id < y.id; };
	std::sort(a.begin(), a.end(), less);
	std::sort(b.begin(), b.end(), less);
	return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto& x, auto& y) { return same(x, y); });
}
static bytes riff_cues(Rng& r, const std::vector<wav::cue_ex>& v, bool shuffle)
{
	bytes q, l = str("adtl");
	put(q, v.size(), 4);
	for (auto& x : v) q = q + cue_bytes(x);
	std::vector<bytes> parts;
	for (auto& x : v) {
		if (!shuffle || x.duration || x.purpose_id || !x.description.empty()) parts.push_back(chunk("ltxt", ltxt_bytes(x)));
		if (!x.title.empty()) parts.push_back(chunk("labl", named_bytes(x.id, x.title)));
		if (!x.note.empty()) parts.push_back(chunk("note", named_bytes(x.id, x.note)));
	}
	if (shuffle) {
		for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.below(i)]);
		if (r.chance(1, 4)) parts.insert(parts.begin() + static_cast<ptrdiff_t>(r.below(parts.size() + 1)), chunk("xtra", data_bytes(r, r.below(20))));
	}
	for (auto& p : parts) l = l + p;
	if (shuffle) {
		if (r.chance(1, 4)) q = q + data_bytes(r, r.below(30)); // More than this version understands
		bytes a = chunk("cue ", q), b = parts.empty() && r.coin() ? bytes() : chunk("LIST", l);
		return r.coin() ? a + b : b + a;
	}
	return chunk("cue ", q) + chunk("LIST", l);
}

struct Format { uint16_t comp, ch, ba, bits; uint32_t rate, bps; bytes extra; };
static Format random_format(Rng& r)
{
	Format f;
	f.comp = r.one<uint16_t>({ 1, 2, 3, 6, 7, 0x11, 0x50, 0xffff }); f.ch = static_cast<uint16_t>(r.next()); f.ba = static_cast<uint16_t>(r.next()); f.bits = static_cast<uint16_t>(r.next()); f.rate = static_cast<uint32_t>(r.next()); f.bps = static_cast<uint32_t>(r.next());
	if (r.coin()) f.extra = data_bytes(r, r.chance(1, 50) ? 65535 - r.below(3) : r.size(60));
	return f;
}
static bytes format_bytes(const Format& f, bool with_size = false)
{
	bytes b;
	put(b, f.comp, 2), put(b, f.ch, 2), put(b, f.rate, 4), put(b, f.bps, 4), put(b, f.ba, 2), put(b, f.bits, 2);
	if (!f.extra.empty() || with_size) put(b, f.extra.size(), 2), b = b + f.extra;
	return b;
}
static void set(wav::format& o, const Format& f)
{
	o.compression = static_cast<wav::format::compression_t>(f.comp); o.num_channels = f.ch; o.sample_rate = f.rate; o.bytes_per_second = f.bps; o.block_align = f.ba; o.bits_per_channel = f.bits;
	if (!f.extra.empty()) o.extra.write_array(f.extra.data(), 1, f.extra.size());
}
static bool same(wav::format& o, const Format& f)
{
	return static_cast<uint16_t>(o.compression) == f.comp && o.num_channels == f.ch && o.sample_rate == f.rate && o.bytes_per_second == f.bps && o.block_align == f.ba && o.bits_per_channel == f.bits && content(o.extra) == f.extra;
}

// What is left of a file without cues
static const std::set<std::string> removable{ "cue ", "ltxt", "labl", "note" };
static bytes without_cues(const bytes& b, size_t from, size_t to)
{
	bytes o;
	while (from < to) {
		std::string id(b.begin() + static_cast<ptrdiff_t>(from), b.begin() + static_cast<ptrdiff_t>(from) + 4);
		uint32_t n; memcpy(&n, &b[from + 4], 4);
		size_t d = from + 8;
		from = d + n + (n & 1);
		if (removable.count(id)) continue;
		if (id == "RIFF" || id == "LIST") {
			bytes in = without_cues(b, d + 4, d + n);
			if (!in.empty()) o = o + chunk(id, bytes(b.begin() + static_cast<ptrdiff_t>(d), b.begin() + static_cast<ptrdiff_t>(d) + 4) + in);
		}
		else o = o + chunk(id, bytes(b.begin() + static_cast<ptrdiff_t>(d), b.begin() + static_cast<ptrdiff_t>(d + n)));
	}
	return o;
}

struct File
{
	Format fmt;
	bytes data;
	std::vector<wav::cue_ex> cues;
	bytes b;
};
static File random_file(Rng& r)
{
	File f;
	f.fmt = random_format(r);
	f.data = data_bytes(r, r.size(2000));
	f.cues = random_cues(r, 8);
	std::vector<bytes> parts{ chunk("fmt ", format_bytes(f.fmt, r.coin())), chunk("data", f.data), riff_cues(r, f.cues, true) };
	for (size_t k = r.below(4); k; --k) {
		switch (r.below(4)) {
		case 0: parts.push_back(chunk(r.one({ "fact", "bext", "JUNK", "PEAK", "DISP" }), data_bytes(r, r.size(60)))); break;
		case 1: {
			bytes l = str("INFO");
			for (size_t i = 1 + r.below(3); i; --i) l = l + chunk(r.one({ "ICRD", "INAM", "IART", "ISFT" }), str(text(r, 30), true));
			parts.push_back(chunk("LIST", l));
			break;
		}
		case 2: parts.push_back(chunk("LIST", str("wavl") + chunk("slnt", bytes{ 1, 0, 0, 0 }) + chunk("LIST", str("deep") + chunk("some", data_bytes(r, r.below(9)))))); break;
		default: parts.push_back(chunk("smpl", bytes()));
		}
	}
	for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.below(i)]);
	bytes in = str("WAVE");
	for (auto& p : parts) in = in + p;
	if (r.chance(1, 6)) f.b = chunk(r.coin() ? "RIFF" : "junk", str("AVI ") + chunk("fmt ", bytes(20, 7)));
	f.b = f.b + chunk("RIFF", in);
	return f;
}

template <class Fn> static bool with_file(Rng& r, const bytes& b, Fn fn)
{
	switch (r.below(3)) {
	case 0: { sx::memory_file f(b.size() + 1); f.write_array(b.data(), 1, b.size()); f.seekbeg(0); return fn(f); }
	case 1: { IdealFile f; f.d = b; return fn(f); }
	default: { IdealFile f; f.d = b; f.read_rng = r.next() | 1; return fn(f); }
	}
}

VH_GROUP(records, 20000, 200000, 5000)
{
	auto& r = c.rng;
	sx::memory_file f;
	bytes want;
	auto q = random_cue(r, static_cast<uint32_t>(r.next()));
	auto F = random_format(r);
	auto v = random_cues(r, 6);
	bytes d = data_bytes(r, r.size(300));
	bool again = r.coin(); // Into objects that hold something already
	wav::format fo, fi;
	wav::data dout, di;
	wav::ltxt lo, li;
	wav::label bo, bi;
	wav::note no, ni;
	wav::cue_vector vo, vi;
	wav::silence so, si;
	set(fo, F);
	if (!d.empty()) dout.content.write_array(d.data(), 1, d.size());
	lo.id = q.id; lo.duration = q.duration; lo.purpose_id = q.purpose_id; lo.country = q.country; lo.language = q.language; lo.dialect = q.dialect; lo.charset = q.charset; lo.description = q.description;
	bo.id = q.id; bo.title = q.title; no.id = q.id; no.note = q.note;
	so.num_samples = static_cast<uint32_t>(r.next());
	for (auto& x : v) vo.push_back(x);
	if (again) { set(fi, random_format(r)); di.content << uint64_t(5); li.description = li.description = bi.title = ni.note = "old"; vi.resize(9); si.num_samples = 3; }
	struct Op { std::function<void(sx::basic_file&)> w, rd; bytes b; std::function<bool()> ok; const char* name; };
	std::vector<Op> ops{
		{ [&](auto& s) { s << wav::format::record(fo); }, [&](auto& s) { s >> wav::format::record(fi); }, chunk("fmt ", format_bytes(F)), [&] { return same(fi, F); }, "format" },
		{ [&](auto& s) { s << wav::data::record(dout); }, [&](auto& s) { s >> wav::data::record(di); }, chunk("data", d), [&] { return content(di.content) == d; }, "data" },
		{ [&](auto& s) { s << wav::ltxt::record(lo); }, [&](auto& s) { s >> wav::ltxt::record(li); }, chunk("ltxt", ltxt_bytes(q)), [&] { return li.id == q.id && li.duration == q.duration && li.purpose_id == q.purpose_id && li.country == q.country && li.language == q.language && li.dialect == q.dialect && li.charset == q.charset && li.description == q.description; }, "ltxt" },
		{ [&](auto& s) { s << wav::label::record(bo); }, [&](auto& s) { s >> wav::label::record(bi); }, chunk("labl", named_bytes(q.id, q.title)), [&] { return bi.id == q.id && bi.title == q.title; }, "label" },
		{ [&](auto& s) { s << wav::note::record(no); }, [&](auto& s) { s >> wav::note::record(ni); }, chunk("note", named_bytes(q.id, q.note)), [&] { return ni.id == q.id && ni.note == q.note; }, "note" },
		{ [&](auto& s) { s << wav::silence::record(so); }, [&](auto& s) { s >> wav::silence::record(si); }, [&] { bytes b; put(b, so.num_samples, 4); return chunk("slnt", b); }(), [&] { return si.num_samples == so.num_samples; }, "silence" },
		{ [&](auto& s) { s << wav::cue_vector_record(vo); }, [&](auto& s) { s >> wav::cue_vector_record(vi); }, [&] { bytes b; put(b, v.size(), 4); for (auto& x : v) b = b + cue_bytes(x); return chunk("cue ", b); }(),
			[&] { return vi.size() == v.size() && std::equal(vi.begin(), vi.end(), v.begin(), [](const wav::cue& a, const wav::cue& b) { return cue_bytes(a) == cue_bytes(b); }); }, "cues" },
	};
	for (size_t i = ops.size(); i > 1; --i) std::swap(ops[i - 1], ops[r.below(i)]);
	for (auto& o : ops) { o.w(f); want = want + o.b; VH_CHECK(c, f.ok(), "write-state", "%s", o.name); }
	auto got = content(f);
	VH_CHECK(c, got == want, "layout", "%s, %s expected", show(got).c_str(), show(want).c_str());
	with_file(r, want, [&](sx::basic_file& s) {
		size_t pos = 0;
		for (auto& o : ops) {
			uint32_t id = 0;
			s >> id;
			VH_CHECK(c, !memcmp(&id, o.b.data(), 4), "record-id", "%s", o.name);
			o.rd(s);
			pos += o.b.size();
			VH_CHECK(c, s.ok(), "read-state", "%s", o.name);
			VH_CHECK(c, s.tell() == pos, "read-position", "%s: %llu, %zu expected", o.name, (unsigned long long)s.tell(), pos);
			VH_CHECK(c, o.ok(), "read", "%s", o.name);
			if (c.failed) return false;
		}
		return true;
	});
	c.sig(hash_bytes(want.data(), want.size()));
}

// Headers of files, extra data that is too big and orders of cue points.
VH_GROUP(small, 4000, 40000, 2000)
{
	auto& r = c.rng;
	wav::header h, i;
	i.type = static_cast<wav::id_t>(r.next());
	h.type = static_cast<wav::id_t>(r.next());
	sx::memory_file f;
	bytes type;
	put(type, static_cast<uint32_t>(h.type), 4);
	static_cast<sx::basic_file&>(f) << wav::header::record(h);
	VH_CHECK(c, f.ok() && content(f) == chunk("RIFF", type), "header-layout", "%s, %s expected", show(content(f)).c_str(), show(chunk("RIFF", type)).c_str());
	bool cut = r.coin();
	if (cut) { f.seek(8 + static_cast<sx::foff_t>(r.below(4))); f.truncate(); }
	f.seek(0);
	wav::id_t id = 0;
	static_cast<sx::basic&>(f) >> id;
	VH_CHECK(c, id == wav::header::record::id(), "header-id", "%x", static_cast<unsigned>(id));
	static_cast<sx::basic_file&>(f) >> wav::header::record(i);
	if (cut) VH_CHECK(c, i.type == 0, "header-cut", "header cut short reads as %x", static_cast<unsigned>(i.type));
	else VH_CHECK(c, f.ok() && i.type == h.type && f.tell() == f.size(), "header-read", "%x, %x expected", static_cast<unsigned>(i.type), static_cast<unsigned>(h.type));
	wav::cue a, b;
	a.id = static_cast<uint32_t>(r.below(4)) * 0x55555555u; b.id = static_cast<uint32_t>(r.below(4)) * 0x55555555u;
	a.position = static_cast<uint32_t>(r.below(4)) * 0x55555555u; b.position = static_cast<uint32_t>(r.below(4)) * 0x55555555u;
	auto sign = [](int x) { return (x > 0) - (x < 0); };
	VH_CHECK(c, sign(compare_by_id(a, b)) == (a.id > b.id) - (a.id < b.id), "compare-id", "%x and %x: %d", a.id, b.id, compare_by_id(a, b));
	VH_CHECK(c, sign(compare_by_pos(a, b)) == (a.position > b.position) - (a.position < b.position), "compare-position", "%x and %x: %d", a.position, b.position, compare_by_pos(a, b));
	if (r.chance(1, 20)) {
		// The length of extra data has 16 bits.
		wav::format F;
		size_t n = static_cast<size_t>(r.range(0xfffe, 0x10001));
		F.extra.write_byte(7, n);
		sx::memory_file g;
		bool threw = false;
		try { static_cast<sx::basic_file&>(g) << wav::format::record(F); }
		catch (const std::invalid_argument&) { threw = true; }
		VH_CHECK(c, threw == (n > 0xffff), "extra-limit", "%zu bytes of extra data %s", n, threw ? "refused" : "accepted");
		if (!threw) {
			wav::format G;
			g.seek(4);
			static_cast<sx::basic_file&>(g) >> wav::format::record(G);
			VH_CHECK(c, g.ok() && content(G.extra) == content(F.extra), "extra", "%zu bytes of extra data read as %zu", n, content(G.extra).size());
		}
	}
	c.sig(hash_bytes(&h.type, 4, i.type));
}

// Blocks of any size and kind, one after another, behind anything: those looked for are found, and nothing else is.
VH_GROUP(blocks, 15000, 150000, 3000)
{
	auto& r = c.rng;
	bytes b = data_bytes(r, r.chance(1, 3) ? 0 : r.size(40)); // RIFF content may be a part of something bigger
	size_t from = b.size();
	struct Block { std::string id, sub; size_t at, end; };
	std::vector<Block> v;
	for (size_t n = r.below(7); n; --n) {
		Block k;
		k.id = r.one({ "LIST", "LIST", "LIST", "RIFF", "JUNK" });
		k.sub = r.one({ "adtl", "wavl", "INFO", "WAVE" });
		bytes d = str(k.sub) + (r.chance(1, 3) ? chunk("LIST", str("adtl") + data_bytes(r, r.below(6))) : bytes()) + data_bytes(r, r.size(40));
		k.at = b.size() + 12;
		k.end = b.size() + 8 + d.size();
		v.push_back(k);
		b = b + chunk(k.id, d);
	}
	size_t to = b.size();
	b = b + (r.coin() ? chunk("LIST", str("adtl") + bytes(6, 1)) : data_bytes(r, r.below(30)));
	bool riff = r.chance(1, 3);
	std::string sub = r.one({ "adtl", "wavl", "INFO", "WAVE" });
	uint64_t sg = from & 1;
	with_file(r, b, [&](sx::basic_file& s) {
		s.seekbeg(from);
		for (auto& k : v) {
			sg = mix(sg ^ (k.id[0] + k.sub[0] * 256u + (k.end - k.at) % 2 * 65536u));
			if (k.id != (riff ? "RIFF" : "LIST") || k.sub != sub) continue;
			sx::fpos_t end = 0;
			bool ok = riff ? wav::find_first<wav::header>(s, id4(sub.c_str()), to, &end) : wav::find_first<wav::list>(s, id4(sub.c_str()), to, &end);
			VH_CHECK(c, ok && s.ok(), "block-missed", "%s %s at %zu not found", k.id.c_str(), sub.c_str(), k.at);
			if (c.failed) return false;
			VH_CHECK(c, s.tell() == k.at && end == k.end, "block-where", "%s %s of %zu to %zu found at %llu to %llu", k.id.c_str(), sub.c_str(), k.at, k.end, (unsigned long long)s.tell(), (unsigned long long)end);
			if (c.failed) return false;
			c.count("blocks_found");
			s.seekbeg(k.end + (k.end - k.at & 1)); // To the next one
		}
		bool more = riff ? wav::find_first<wav::header>(s, id4(sub.c_str()), to) : wav::find_first<wav::list>(s, id4(sub.c_str()), to);
		VH_CHECK(c, !more, "block-invented", "%s %s found at %llu", riff ? "RIFF" : "LIST", sub.c_str(), (unsigned long long)s.tell());
		return true;
	});
	if (from & 1) c.count("odd_offset");
	c.sig(sg);
}

VH_GROUP(file, 15000, 150000, 5000)
{
	auto& r = c.rng;
	auto w = random_file(r);
	with_file(r, w.b, [&](sx::basic_file& s) {
		sx::fpos_t end = 0;
		sx::fpos_t limit = r.coin() ? w.b.size() : sx::fpos_max;
		bool found = wav::find_content(s, limit, &end);
		VH_CHECK(c, found && end <= w.b.size() && w.b.size() - end <= 1, "find-content", "%s, end at %llu of %zu", found ? "found" : "not found", (unsigned long long)end, w.b.size());
		if (!found) return false;
		auto start = s.tell();
		bool open_end = r.coin();
		if (open_end) end = sx::fpos_max; // Up to the end of file
		wav::cue_ex_vector q = r.coin() ? random_cues(r, 4) : std::vector<wav::cue_ex>(); // What was there is replaced
		g_largest = 0;
		bool ok = wav::read_cues(s, q, end);
		VH_CHECK(c, ok && same(q, w.cues), "read-cues", "%s, %zu cues, %zu expected", ok ? "read" : "failed", q.size(), w.cues.size());
		VH_CHECK(c, std::is_sorted(q.begin(), q.end(), [](auto& a, auto& b) { return a.id < b.id; }), "cue-order", "not by identifier");
		VH_CHECK(c, s.tell() == start, "cue-position", "left at %llu", (unsigned long long)s.tell());
		s.seekbeg(start);
		wav::format F;
		VH_CHECK(c, wav::read_first(s, F, end) && same(F, w.fmt), "read-format", "not read");
		s.seekbeg(start);
		wav::data D;
		VH_CHECK(c, wav::read_first(s, D, end) && content(D.content) == w.data, "read-data", "not read");
		s.seekbeg(start);
		wav::silence Z;
		VH_CHECK(c, !wav::read_first(s, Z, end), "read-missing", "found");
		return true;
	});
	c.sig(hash_bytes(w.b.data(), w.b.size()));
	if (!w.cues.empty()) c.count("cued");
}

// Values of objects nobody set: memory they come to life in held something else.
template <class T, class Fn> static bool fresh(Fn fn)
{
	alignas(T) unsigned char m[sizeof(T)];
	memset(m, 0xa5, sizeof m);
	asm volatile("" : : "r"(m) : "memory");
	T* p = ::new (static_cast<void*>(m)) T;
	bool ok = fn(*p);
	p->~T();
	return ok;
}
static bool zero(const wav::cue& q) { return !q.id && !q.position && !q.chunk_id && !q.chunk_offset && !q.block_start && !q.block_offset; }
static bool zero(const wav::ltxt& q) { return !q.id && !q.duration && !q.purpose_id && !q.country && !q.language && !q.dialect && !q.charset && q.description.empty(); }
static bool zero(const wav::cue_ex& q) { return zero(static_cast<const wav::cue&>(q)) && !q.duration && !q.purpose_id && !q.country && !q.language && !q.dialect && !q.charset && q.description.empty() && q.title.empty() && q.note.empty(); }
static bool zero(wav::format& q) { return q.compression == wav::format::compression_t::unknown && !q.num_channels && !q.sample_rate && !q.bytes_per_second && !q.block_align && !q.bits_per_channel && !q.extra.size(); }

// Records shorter than what is kept in them, read into objects that hold something: what there is, and nothing of the old.
VH_GROUP(short_records, 20000, 200000, 3000)
{
	auto& r = c.rng;
	auto q = random_cue(r, static_cast<uint32_t>(r.next()));
	auto F = random_format(r);
	struct Kind { const char* id; bytes b; };
	size_t kind = r.below(6);
	bool many = false;
	bytes full = kind == 0 ? format_bytes(F, r.coin()) : kind == 1 ? ltxt_bytes(q) : kind == 2 ? named_bytes(q.id, q.title) : kind == 3 ? named_bytes(q.id, q.note) : kind == 4 ? bytes{ 1, 2, 3, 4 } : bytes();
	if (kind == 5) {
		many = r.chance(1, 60);
		size_t n = many ? 4000 + r.below(6000) : r.below(6);
		put(full, n - std::min<size_t>(n, r.below(many && r.coin() ? 3000 : 3)) + r.below(3), 4);
		for (size_t i = 0; i < n; i++) { wav::cue x; x.id = static_cast<uint32_t>(r.next()); x.position = static_cast<uint32_t>(i); full = full + cue_bytes(x); }
	}
	bytes cut(full.begin(), full.begin() + static_cast<ptrdiff_t>((many ? r.coin() : r.chance(1, 6)) ? full.size() : r.below(full.size() + 1)));
	size_t k = cut.size(), at = 0;
	auto next = [&](size_t n) -> uint32_t { uint32_t v = 0; if (at + n <= k) memcpy(&v, &cut[at], n), at += n; else at = SIZE_MAX / 2; return v; };
	auto tail = [&] { std::string s; if (at <= k) for (size_t i = at; i < k && cut[i]; i++) s += static_cast<char>(cut[i]); return s; };
	static const char* const ids[] = { "fmt ", "ltxt", "labl", "note", "slnt", "cue " };
	bytes b = chunk(ids[kind], cut) + chunk("mark", bytes{ 9, 8, 7 });
	with_file(r, b, [&](sx::basic_file& s) {
		uint32_t id = 0;
		s >> id;
		bool ok = false;
		switch (kind) {
		case 0: {
			wav::format f;
			set(f, random_format(r));
			s >> wav::format::record(f);
			auto comp = next(2), ch = next(2), rate = next(4), bps = next(4), ba = next(2), bits = next(2), n = next(2);
			bytes e;
			if (at <= k) e.assign(cut.begin() + static_cast<ptrdiff_t>(at), cut.begin() + static_cast<ptrdiff_t>(std::min<size_t>(k, at + n)));
			ok = static_cast<uint16_t>(f.compression) == comp && f.num_channels == ch && f.sample_rate == rate && f.bytes_per_second == bps && f.block_align == ba && f.bits_per_channel == bits && content(f.extra) == e;
			break;
		}
		case 1: {
			wav::ltxt l;
			l.id = l.duration = l.purpose_id = 77; l.country = l.language = l.dialect = l.charset = 99; l.description = "old";
			s >> wav::ltxt::record(l);
			auto i = next(4), d = next(4), p = next(4), c1 = next(2), c2 = next(2), c3 = next(2), c4 = next(2);
			ok = l.id == i && l.duration == d && l.purpose_id == p && l.country == c1 && l.language == c2 && l.dialect == c3 && l.charset == c4 && l.description == tail();
			break;
		}
		case 2: { wav::label l; l.id = 5; l.title = "old"; s >> wav::label::record(l); auto i = next(4); ok = l.id == i && l.title == tail(); break; }
		case 3: { wav::note l; l.id = 5; l.note = "old"; s >> wav::note::record(l); auto i = next(4); ok = l.id == i && l.note == tail(); break; }
		case 4: { wav::silence l; l.num_samples = 5; s >> wav::silence::record(l); ok = l.num_samples == next(4); break; }
		default: {
			wav::cue_vector v(3);
			s >> wav::cue_vector_record(v);
			size_t n = next(4);
			n = at <= k ? std::min(n, (k - 4) / sizeof(wav::cue)) : 0;
			ok = v.size() == n;
			for (size_t i = 0; ok && i < n; i++) { auto x = cue_bytes(v[i]); ok = std::equal(x.begin(), x.end(), cut.begin() + static_cast<ptrdiff_t>(4 + 24 * i)); }
			if (n > 0x1000) c.count("many_cues");
		}
		}
		VH_CHECK(c, ok, "short-read", "%s record of %zu bytes", ids[kind], k);
		VH_CHECK(c, s.tell() == b.size() - 12, "short-position", "after %s record of %zu bytes at %llu, %zu expected", ids[kind], k, (unsigned long long)s.tell(), b.size() - 12);
		return true;
	});
	VH_CHECK(c, fresh<wav::header>([](auto& x) { return !x.type; }) && fresh<wav::silence>([](auto& x) { return !x.num_samples; }) && fresh<wav::cue>([](auto& x) { return zero(x); }) && fresh<wav::ltxt>([](auto& x) { return zero(x); }) &&
		fresh<wav::label>([](auto& x) { return !x.id && x.title.empty(); }) && fresh<wav::note>([](auto& x) { return !x.id && x.note.empty(); }) && fresh<wav::cue_ex>([](auto& x) { return zero(x); }) && fresh<wav::format>([](auto& x) { return zero(x); }) &&
		fresh<wav::data>([](auto& x) { return !x.content.size(); }), "defaults", "object nobody set has values");
	c.sig(hash_bytes(b.data(), b.size()));
}

// Where a cut makes copying impossible: in a chunk that is kept, in the beginning of one that holds others, or in the length of one to skip.
static bool cut_in_kept(const bytes& b, size_t cut, size_t from, size_t to)
{
	while (from < to) {
		std::string id(b.begin() + static_cast<ptrdiff_t>(from), b.begin() + static_cast<ptrdiff_t>(from) + 4);
		uint32_t n; memcpy(&n, &b[from + 4], 4);
		size_t next = from + 8 + n + (n & 1);
		if (cut < next) {
			if (removable.count(id)) return cut >= from + 4 && cut < from + 8;
			if (id == "RIFF" || id == "LIST") return cut >= from + 12 ? cut_in_kept(b, cut, from + 12, from + 8 + n) : cut >= from + 4;
			return cut >= from + 4 && cut < from + 8 + n;
		}
		from = next;
	}
	return false;
}
static bool cut_in_cues(const bytes& b, size_t cut, size_t from)
{
	for (size_t to = b.size(); from < to;) {
		uint32_t n; memcpy(&n, &b[from + 4], 4);
		if (!memcmp(&b[from], "cue ", 4) && cut >= from + 4 && cut < from + 12) return true;
		if (!memcmp(&b[from], "LIST", 4) && !memcmp(&b[from + 8], "adtl", 4)) {
			for (size_t i = from + 12, m; i + 8 <= from + 8 + n; i += 8 + m + (m & 1)) {
				uint32_t x; memcpy(&x, &b[i + 4], 4); m = x;
				if (!memcmp(&b[i], "xtra", 4) && cut >= i + 4 && cut < i + 8) return true;
			}
		}
		from = from + 8 + n + (n & 1);
	}
	return false;
}

// Files cut short, and files with something after the part that counts.
VH_GROUP(truncated, 20000, 200000, 4000)
{
	auto& r = c.rng;
	auto w = random_file(r);
	bytes b = w.b;
	size_t content_at = 0;
	{
		IdealFile f; f.d = b;
		VH_CHECK(c, wav::find_content(f), "find-content", "not found");
		content_at = f.tell();
	}
	if (r.coin()) {
		size_t cut = r.below(b.size());
		b.resize(cut);
		with_file(r, b, [&](sx::basic_file& s) {
			if (r.coin()) {
				sx::memory_file o;
				bool ok = wav::remove_cues(s, o, r.coin() ? w.b.size() : sx::fpos_max);
				bool must = cut_in_kept(w.b, cut, 0, w.b.size());
				VH_CHECK(c, !(ok && must), "truncated-remove", "file of %zu bytes cut to %zu copied as complete", w.b.size(), cut);
				if (must) c.count("cut_kept");
			}
			else if (cut >= content_at) {
				s.seekbeg(content_at);
				wav::cue_ex_vector q = random_cues(r, 3);
				bool ok = wav::read_cues(s, q, r.coin() ? w.b.size() : sx::fpos_max);
				bool must = cut_in_cues(w.b, cut, content_at);
				VH_CHECK(c, !(ok && must), "truncated-cues", "file of %zu bytes with cue list cut at %zu read", w.b.size(), cut);
				if (must) c.count("cut_cues");
			}
			return true;
		});
	}
	else {
		// Chunks after the content: not a part of it.
		wav::cue_ex_vector stray = w.cues.empty() ? random_cues(r, 3) : w.cues;
		size_t start = content_at, stop = b.size();
		for (auto& x : stray) x.title = "stray", x.note = "stray", x.duration++, x.description = "stray";
		bytes after;
		std::string pick = r.one({ "cues", "label", "list", "fmt" });
		if (pick == "cues") after = riff_cues(r, stray, true);
		else if (pick == "list") { bytes l = str("adtl"); for (auto& x : stray) l = l + chunk("labl", named_bytes(x.id, x.title)) + chunk("note", named_bytes(x.id, x.note)) + chunk("ltxt", ltxt_bytes(x)); after = chunk("LIST", l); }
		else if (pick == "label") for (auto& x : stray) after = after + chunk("labl", named_bytes(x.id, x.title)) + chunk("note", named_bytes(x.id, x.note)) + chunk("ltxt", ltxt_bytes(x));
		else after = chunk("fmt ", format_bytes(random_format(r))) + chunk("data", bytes{ 1 });
		b = b + after;
		with_file(r, b, [&](sx::basic_file& s) {
			s.seekbeg(start);
			wav::cue_ex_vector q;
			// Labels outside of a list belong to nothing, hence they are ignored even when the content has no end.
			bool open_end = pick == "label" && r.coin();
			bool ok = wav::read_cues(s, q, open_end ? sx::fpos_max : stop);
			VH_CHECK(c, ok && same(q, w.cues), "read-limit", "%s after the content at %zu: %s, %zu cues, %zu expected", pick.c_str(), stop, ok ? "read" : "failed", q.size(), w.cues.size());
			s.seekbeg(start);
			wav::silence Z;
			VH_CHECK(c, !wav::read_first(s, Z, stop), "limit-missing", "found");
			s.seekbeg(start);
			sx::fpos_t e = 0;
			VH_CHECK(c, !wav::find_first<wav::list>(s, id4("none"), stop, &e), "limit-list", "found");
			s.seekbeg(0);
			sx::memory_file o;
			VH_CHECK(c, wav::remove_cues(s, o, stop) && content(o) == without_cues(w.b, 0, w.b.size()), "remove-limit", "%s after the content was copied", pick.c_str());
			VH_CHECK(c, s.tell() == stop, "remove-position", "at %llu, %zu expected", (unsigned long long)s.tell(), stop);
			return true;
		});
		c.count("trailing");
	}
	c.sig(hash_bytes(b.data(), b.size()));
}

VH_GROUP(cue_list, 15000, 150000, 5000)
{
	auto& r = c.rng;
	auto v = random_cues(r, 12);
	auto want = riff_cues(r, v, false);
	sx::memory_file f;
	f << v;
	auto got = content(f);
	VH_CHECK(c, f.ok() && got == want, "cue-layout", "%s, %s expected", show(got).c_str(), show(want).c_str());
	f.seekbeg(0);
	wav::cue_ex_vector q;
	bool ok = wav::read_cues(f, q, r.coin() ? f.size() : sx::fpos_max);
	VH_CHECK(c, ok && same(q, v), "cue-round", "%zu cues read, %zu written", q.size(), v.size());
	if (!v.empty()) c.sig(hash_bytes(want.data(), want.size()));
}

VH_GROUP(edit, 15000, 150000, 5000)
{
	auto& r = c.rng;
	auto w = random_file(r);
	auto want = without_cues(w.b, 0, w.b.size());
	with_file(r, w.b, [&](sx::basic_file& s) {
		sx::memory_file o;
		bool stale = r.coin();
		if (stale) { auto j = data_bytes(r, w.b.size() + 100); o.write_array(j.data(), 1, j.size()); o.seekbeg(0); }
		bool ok = wav::remove_cues(s, o, r.coin() ? w.b.size() : sx::fpos_max);
		auto got = content(o);
		VH_CHECK(c, ok && got == want, "remove", "%s: %s, %s expected from %s", ok ? "done" : "failed", show(got, 600).c_str(), show(want, 600).c_str(), show(w.b, 600).c_str());
		if (!ok || got != want) return false;
		// New ones instead
		auto v = random_cues(r, 8);
		o.seekend(0);
		auto at = o.tell();
		o << v;
		o.seekbeg(at);
		wav::cue_ex_vector q;
		VH_CHECK(c, wav::read_cues(o, q, o.size()) && same(q, v), "replace", "%zu cues read, %zu written", q.size(), v.size());
		return true;
	});
	c.sig(hash_bytes(w.b.data(), w.b.size()));
}

// A file below that fails: what is reported as done is done.
VH_GROUP(faults, 20000, 200000, 4000)
{
	auto& r = c.rng;
	auto w = random_file(r);
	auto v = random_cues(r, 8);
	IdealFile s, o;
	s.d = w.b;
	if (r.coin()) s.read_rng = r.next() | 1;
	o.write_partially = r.coin();
	unsigned op = static_cast<unsigned>(r.below(4));
	int in = static_cast<int>(r.size(60));
	bool open_end = r.coin();
	auto limit = open_end ? sx::fpos_max : w.b.size();
	switch (op) {
	case 0: case 1: {
		if (op) o.fail_write_in = in; else s.fail_read_in = in;
		bool ok = wav::remove_cues(s, o, limit);
		auto faults = s.faults + o.faults;
		VH_CHECK(c, !(ok && o.ok()) || o.d == without_cues(w.b, 0, w.b.size()), "fault-remove", "%s fault %d: %zu bytes copied as complete, must be %zu, input %s, output %s", op ? "write" : "read", in, o.d.size(), without_cues(w.b, 0, w.b.size()).size(), sname(s.state()), sname(o.state()));
		VH_CHECK(c, faults || (ok && o.ok()), "fault-alarm", "failed without a fault");
		if (faults) c.count(op ? "write faults" : "read faults"), c.sig(hash_bytes(w.b.data(), w.b.size()) ^ static_cast<uint64_t>(in));
		break;
	}
	case 2: {
		if (!wav::find_content(s)) return;
		auto at = s.tell();
		s.fail_read_in = in;
		wav::cue_ex_vector q;
		bool ok = wav::read_cues(s, q, limit);
		VH_CHECK(c, !ok || same(q, w.cues), "fault-cues", "read fault %d: %zu cues read as complete, %zu are there", in, q.size(), w.cues.size());
		VH_CHECK(c, s.faults || (ok && s.tell() == at), "fault-alarm", "failed without a fault");
		if (s.faults) c.count("read faults"), c.sig(hash_bytes(w.b.data(), w.b.size()) ^ static_cast<uint64_t>(in));
		break;
	}
	default: {
		auto want = riff_cues(r, v, false);
		o.fail_write_in = in;
		o << v;
		VH_CHECK(c, !o.ok() || o.d == want, "fault-write", "write fault %d: %zu bytes written as complete, must be %zu", in, o.d.size(), want.size());
		VH_CHECK(c, o.faults || o.ok(), "fault-alarm", "failed without a fault");
		if (o.faults) c.count("write faults"), c.sig(hash_bytes(want.data(), want.size()) ^ static_cast<uint64_t>(in));
	}
	}
}

// Damaged files: everything ends, in memory and time in proportion to what is there.
VH_GROUP(hostile, 40000, 400000, 10000)
{
	auto& r = c.rng;
	auto b = random_file(r).b;
	std::vector<size_t> sizes; // Likely size fields
	for (size_t i = 0; i + 8 <= b.size(); i++)
		for (auto id : { "RIFF", "LIST", "cue ", "ltxt", "labl", "note", "fmt ", "data" }) if (!memcmp(&b[i], id, 4)) sizes.push_back(i + 4), sizes.push_back(i + 8);
	for (size_t k = 1 + r.below(3); k; --k) {
		switch (r.below(5)) {
		case 0: b.resize(r.below(b.size() + 1)); break;
		case 1: if (!b.empty()) b[r.below(b.size())] = static_cast<uint8_t>(r.next()); break;
		case 2: case 3: {
			size_t i = r.pick(sizes);
			uint32_t n = r.one<uint32_t>({ 0xffffffffu, 0xfffffffeu, 0x7fffffffu, 0x80000000u, 0, 1, 2, 3, 4, 5, static_cast<uint32_t>(r.below(b.size() + 20)), static_cast<uint32_t>(r.next()) });
			if (i + 4 <= b.size()) memcpy(&b[i], &n, 4);
			break;
		}
		default: { size_t i = r.below(b.size() + 1), n = r.below(12); b.erase(b.begin() + static_cast<ptrdiff_t>(i), b.begin() + static_cast<ptrdiff_t>(std::min(b.size(), i + n))); }
		}
	}
	size_t limit = 16 * b.size() + (1 << 20);
	try {
		with_file(r, b, [&](sx::basic_file& s) {
			sx::fpos_t end = sx::fpos_max;
			if (r.coin() && !wav::find_content(s, r.coin() ? b.size() : sx::fpos_max, &end)) s.seekbeg(0), end = r.coin() ? b.size() : sx::fpos_max;
			auto start = s.tell();
			g_largest = g_total = 0;
			switch (r.below(5)) {
			case 0: { wav::cue_ex_vector q; if (wav::read_cues(s, q, end)) c.count("cues_read"); break; }
			case 1: { wav::format F; wav::read_first(s, F, end); break; }
			case 2: { wav::data D; if (wav::read_first(s, D, end)) VH_CHECK(c, D.content.size() <= b.size(), "hostile-data", "%llu bytes of %zu", (unsigned long long)D.content.size(), b.size()); break; }
			case 3: { sx::memory_file o; wav::remove_cues(s, o, end); VH_CHECK(c, o.size() <= 2 * b.size() + 64, "hostile-output", "%llu bytes of %zu", (unsigned long long)o.size(), b.size()); break; }
			default: {
				wav::cue_vector v;
				if (wav::cue_vector_record::find(s, end)) s >> wav::cue_vector_record(v), c.count("cue_vector");
				VH_CHECK(c, v.size() <= b.size() / sizeof(wav::cue), "hostile-cues", "%zu cues in %zu bytes", v.size(), b.size());
			}
			}
			VH_CHECK(c, g_largest <= limit && g_total <= 100 * limit, "hostile-alloc", "%zu bytes of file allocated %zu at once, %zu in all", b.size(), g_largest, g_total);
			s.seekbeg(start);
			return true;
		});
	}
	catch (const std::bad_alloc&) { c.fail("hostile-alloc", "%zu bytes of file exhausted memory", b.size()); }
	catch (const std::exception& e) { c.fail("hostile-throw", "%s", e.what()); }
	c.sig(hash_bytes(b.data(), b.size()));
}
VH_MAIN
