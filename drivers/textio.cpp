// S06: reading and writing text by line, formatted and through an encoder.
#include "fstreams.hpp"
using namespace vh;
using stdex::charset_id;

template <class T> static std::basic_string<T> random_text(Rng& r)
{
	std::basic_string<T> s;
	size_t n = r.chance(1, 60) ? static_cast<size_t>(r.below(5000)) : r.size(60);
	for (; n; n--)
		switch (r.below(8)) {
		case 0: s += T('\n'); break;
		case 1: s += T('\r'); break;
		case 2: s += T('\r'); s += T('\n'); break;
		case 3: s += static_cast<T>(r.next() & (sizeof(T) == 4 ? 0x10ffff : ~0ull)); break;
		case 4: s += sizeof(T) > 1 ? static_cast<T>(r.coin() ? 0x0a0d : r.coin() ? 0x0a00 : 0x0d00) : T(0); break;
		default: s += static_cast<T>('a' + r.below(3));
		}
	return s;
}

// Lines as documented: up to the LF, without it and without the CR right in front of it; the last one ends with the data.
template <class T> static std::vector<std::basic_string<T>> lines_of(const std::basic_string<T>& s)
{
	std::vector<std::basic_string<T>> v;
	size_t b = 0;
	for (size_t i = 0; i < s.size(); i++)
		if (s[i] == T('\n')) {
			size_t e = i;
			if (e > b && s[e - 1] == T('\r')) e--;
			v.push_back(s.substr(b, e - b));
			b = i + 1;
		}
	v.push_back(s.substr(b));
	return v;
}

template <class T> static void read_lines(Case& c)
{
	auto& r = c.rng;
	auto text = random_text<T>(r);
	auto want = lines_of(text);
	FaultStream src;
	src.in.assign(reinterpret_cast<const uint8_t*>(text.data()), reinterpret_cast<const uint8_t*>(text.data() + text.size()));
	src.read_rng = r.coin() ? r.next() | 1 : 0;
	bool fault = r.chance(1, 8);
	if (fault) src.fail_read_at = src.in.size();
	sx::memory_file mem;
	if (!src.in.empty()) mem.write(src.in.data(), src.in.size());
	mem.seekbeg(0);
	sx::buffer buf(src, static_cast<size_t>(1 + r.below(20)), 8);
	int kind = static_cast<int>(r.below(3));
	sx::basic& in = kind == 0 ? static_cast<sx::basic&>(src) : kind == 1 ? static_cast<sx::basic&>(mem) : static_cast<sx::basic&>(buf);
	if (kind == 1) fault = false;
	std::basic_string<T> line(2, T('z'));
	size_t i = 0;
	for (;; i++) {
		size_t n;
		if (r.coin()) {
			n = in.readln(line);
		}
		else { // Appending leaves what was there
			std::basic_string<T> pre(static_cast<size_t>(r.below(3)), T('\r')), got = pre;
			n = in.readln_and_attach(got);
			if (n != got.size()) c.fail("attach-count", "returned %zu, string has %zu", n, got.size());
			if (got.compare(0, pre.size(), pre)) c.fail("attach-prefix", "prefix changed");
			line = got.substr(std::min(pre.size(), got.size()));
			n = line.size();
		}
		if (i >= want.size()) { c.fail("lines", "more lines than the text has (%zu)", want.size()); return; }
		if (line != want[i] || n != line.size()) { c.fail("line", "line %zu of %s is %s, want %s (returned %zu)", i, show(text).c_str(), show(line).c_str(), show(want[i]).c_str(), n); return; }
		if (!in.ok()) break;
	}
	if (i + 1 != want.size()) c.fail("lines", "reading stopped after line %zu of %zu in %s", i + 1, want.size(), show(text).c_str());
	if ((in.state() == state_t::fail) != fault) c.fail("line-state", "state at the end is %s", sname(in.state()));
	c.sig(hash_bytes(src.in.data(), src.in.size(), sizeof(T) * 8 + kind));
	c.count("lines", want.size());
	c.sample(show(text));
}

VH_GROUP(lines, 40000, 800000, 10000)
{
	switch (c.rng.below(4)) {
	case 0: read_lines<char>(c); break;
	case 1: read_lines<char16_t>(c); break;
	case 2: read_lines<char32_t>(c); break;
	default: read_lines<wchar_t>(c);
	}
}

static std::u32string random_unicode(Rng& r, bool lf)
{
	std::u32string s;
	size_t n = r.chance(1, 40) ? static_cast<size_t>(r.below(3000)) : r.size(50);
	for (; n; n--) {
		char32_t ch;
		switch (r.below(7)) {
		case 0: ch = static_cast<char32_t>(0x80 + r.below(0x780)); break;
		case 1: ch = static_cast<char32_t>(0x800 + r.below(0xd000)); if (ch >= 0xd800) ch = 0xe000; break;
		case 2: ch = static_cast<char32_t>(0x10000 + r.below(0x100000)); break;
		case 3: if (lf) { ch = r.coin() ? U'\n' : U'\r'; break; } // fall through
		default: ch = static_cast<char32_t>(0x20 + r.below(0x5f));
		}
		s += ch;
	}
	return s;
}
static std::string u8(const std::u32string& s)
{
	std::string o;
	for (auto ch : s) {
		if (ch < 0x80) o += static_cast<char>(ch);
		else if (ch < 0x800) { o += static_cast<char>(0xc0 | ch >> 6); o += static_cast<char>(0x80 | (ch & 63)); }
		else if (ch < 0x10000) { o += static_cast<char>(0xe0 | ch >> 12); o += static_cast<char>(0x80 | (ch >> 6 & 63)); o += static_cast<char>(0x80 | (ch & 63)); }
		else { o += static_cast<char>(0xf0 | ch >> 18); o += static_cast<char>(0x80 | (ch >> 12 & 63)); o += static_cast<char>(0x80 | (ch >> 6 & 63)); o += static_cast<char>(0x80 | (ch & 63)); }
	}
	return o;
}
static std::u16string u16(const std::u32string& s)
{
	std::u16string o;
	for (auto ch : s) {
		if (ch < 0x10000) o += static_cast<char16_t>(ch);
		else { o += static_cast<char16_t>(0xd800 + ((ch - 0x10000) >> 10)); o += static_cast<char16_t>(0xdc00 + ((ch - 0x10000) & 0x3ff)); }
	}
	return o;
}
static std::wstring wide(const std::u32string& s) { return std::wstring(s.begin(), s.end()); }
template <class T> static std::vector<uint8_t> raw(const std::basic_string<T>& s)
{
	auto p = reinterpret_cast<const uint8_t*>(s.data());
	return std::vector<uint8_t>(p, p + s.size() * sizeof(T));
}

// Text through an encoder: written encoded, read back decoded line by line.
template <class T_mem, class T_file> static void encoded(Case& c, charset_id mem_cs, charset_id file_cs, const std::u32string& text, std::basic_string<T_mem>(*to_mem)(const std::u32string&), std::basic_string<T_file>(*to_file)(const std::u32string&))
{
	auto& r = c.rng;
	stdex::charset_encoder<T_mem, T_file> out(mem_cs, file_cs);
	stdex::charset_encoder<T_file, T_mem> in(file_cs, mem_cs);
	auto m = to_mem(text);
	auto f = to_file(text);
	FaultStream s;
	size_t n;
	switch (r.below(3)) {
	case 0: n = s.write_array(m, out); break;
	case 1: { std::vector<T_mem> z(m.begin(), m.end()); z.push_back(0); Exact<T_mem> e(z); n = s.write_array(static_cast<const T_mem*>(e.data()), out); break; }
	default: { Exact<T_mem> e(m); n = s.write_array(static_cast<const T_mem*>(e.data()), m.size(), out); }
	}
	if (s.out != raw(f)) c.fail("encoded-bytes", "text %s written as %zu bytes, want %zu", show(text).c_str(), s.out.size(), f.size() * sizeof(T_file));
	if (n != f.size()) c.fail("encoded-count", "returned %zu code units, want %zu", n, f.size());
	s.in = s.out;
	s.read_rng = r.coin() ? r.next() | 1 : 0;
	auto want = lines_of(text);
	size_t i = 0;
	for (;; i++) {
		std::basic_string<T_mem> line(3, T_mem('q')), got;
		size_t k;
		if (r.coin()) { k = s.readln(line, in); got = line; if (k != line.size()) c.fail("readln-count", "returned %zu for %zu", k, line.size()); }
		else { k = s.readln_and_attach(line, in); got = line.substr(3); if (k != line.size() || line.compare(0, 3, std::basic_string<T_mem>(3, T_mem('q')))) c.fail("attach-prefix", "returned %zu for %zu, or prefix changed", k, line.size()); }
		if (i >= want.size()) { c.fail("encoded-lines", "more lines than written"); return; }
		if (got != to_mem(want[i])) { c.fail("encoded-line", "line %zu of %s reads back as %s", i, show(text).c_str(), show(got).c_str()); return; }
		if (!s.ok()) break;
	}
	if (i + 1 != want.size()) c.fail("encoded-lines", "%zu lines, want %zu", i + 1, want.size());
	c.sig(hash_bytes(text.data(), text.size() * 4, sizeof(T_mem) * 8 + sizeof(T_file)));
}

VH_GROUP(encoder, 8000, 100000, 4000)
{
	auto& r = c.rng;
	auto text = random_unicode(r, true);
	auto id32 = [](const std::u32string& s) { return s; };
	switch (r.below(6)) {
	case 0: encoded<wchar_t, char>(c, charset_id::utf32, charset_id::utf8, text, wide, u8); break;
	case 1: encoded<wchar_t, char16_t>(c, charset_id::utf32, charset_id::utf16, text, wide, u16); break;
	case 2: encoded<char, char16_t>(c, charset_id::utf8, charset_id::utf16, text, u8, u16); break;
	case 3: encoded<char, char32_t>(c, charset_id::utf8, charset_id::utf32, text, u8, id32); break;
	case 4: encoded<char, char>(c, charset_id::utf8, charset_id::utf8, text, u8, u8); break;
	default: encoded<wchar_t, wchar_t>(c, charset_id::utf32, charset_id::utf32, text, wide, wide); break;
	}
	c.sample(show(text));
}

// Byte-order marks.
VH_GROUP(bom, 4000, 40000, 1000)
{
	auto& r = c.rng;
	auto text = random_unicode(r, true);
	while (!text.empty() && text[0] == 0xfeff) text.erase(0, 1);
	auto cs = r.one({ charset_id::utf8, charset_id::utf16, charset_id::utf32, charset_id::windows1250, charset_id::system });
	auto def = r.one({ charset_id::windows1250, charset_id::system, charset_id::utf8, charset_id::windows1252 });
	sx::memory_file f;
	IdealFile ideal;
	ideal.read_rng = r.next() | 1;
	size_t mark = cs == charset_id::utf8 ? 3 : cs == charset_id::utf16 ? 2 : cs == charset_id::utf32 ? 4 : 0;
	static const std::vector<uint8_t> marks[] = { { 0xef, 0xbb, 0xbf }, { 0xff, 0xfe }, { 0xff, 0xfe, 0, 0 } };
	auto body = cs == charset_id::utf16 ? raw(u16(text)) : cs == charset_id::utf32 ? raw(text) : raw(u8(text));
	if (r.chance(1, 4)) body.clear();
	if (r.chance(1, 8)) body.resize(std::min<size_t>(body.size(), r.below(4)));
	if (cs == charset_id::utf16 && body.size() >= 2 && !body[0] && !body[1]) body.clear(); // FF FE 00 00 is UTF-32
	for (auto* o : { static_cast<sx::basic_file*>(&f), static_cast<sx::basic_file*>(&ideal) }) {
		o->write_charset(cs);
		if (!o->ok() || o->tell() != mark) c.fail("bom-write", "mark of charset %d has %llu bytes", (int)cs, (unsigned long long)o->tell());
		if (!body.empty()) o->write(body.data(), body.size());
		if (r.coin()) o->seekbeg(r.below(5));
		auto got = o->read_charset(def);
		auto want = mark ? cs : def;
		if (!mark && body.size() >= 2 && body[0] == 0xff && body[1] == 0xfe) continue;
		if (got != want) c.fail("bom-read", "charset %d with mark %zu read as %d, want %d", (int)cs, mark, (int)got, (int)want);
		if (o->tell() != mark) c.fail("bom-position", "position after read_charset is %llu, want %zu", (unsigned long long)o->tell(), mark);
		if (!o->ok()) c.fail("bom-state", "state after read_charset is %s", sname(o->state()));
		if (mark) {
			o->seekbeg(0);
			auto all = o->read_remainder();
			auto& m = marks[cs == charset_id::utf8 ? 0 : cs == charset_id::utf16 ? 1 : 2];
			if (all.size() != mark + body.size() || memcmp(all.data(), m.data(), mark)) c.fail("bom-bytes", "mark of charset %d is wrong", (int)cs);
		}
	}
	c.sig(hash_bytes(body.data(), body.size(), mark));
}

// Formatted output.
VH_GROUP(format, 8000, 100000, 3000)
{
	auto& r = c.rng;
	size_t len = r.chance(1, 6) ? r.one<size_t>({ 1022, 1023, 1024, 1025, 2047, 2048, 4096, 65535, 65536, 65537, 70000 }) : r.size(400);
	std::string s;
	for (size_t i = 0; i < len; i++) s += static_cast<char>(0x21 + (i * 7 + len) % 90);
	int x = static_cast<int>(r.next()), w = static_cast<int>(r.below(30)), p = static_cast<int>(r.below(12));
	double d = (r.unit() - 0.5) * std::pow(10, static_cast<double>(r.range(-10, 12)));
	FaultStream f;
	locale_t loc = stdex::locale_default;
	if (r.coin()) {
		char* want = nullptr;
		int n = asprintf(&want, "%s|%*d|%.*f|%x", s.c_str(), w, x, p, d, x);
		size_t k = f.write_sprintf("%s|%*d|%.*f|%x", loc, s.c_str(), w, x, p, d, x);
		if (f.out.size() != static_cast<size_t>(n) || memcmp(f.out.data(), want, n)) c.fail("format", "formatted %zu characters as %zu", static_cast<size_t>(n), f.out.size());
		if (k != static_cast<size_t>(n)) c.fail("format-count", "returned %zu, wrote %d", k, n);
		free(want);
	}
	else {
		std::wstring want(len + 200 + 400, L'\0');
		std::wstring ws(s.begin(), s.end());
		int n = swprintf(&want[0], want.size(), L"%ls|%*d|%.*f|%x", ws.c_str(), w, x, p, d, x);
		want.resize(n > 0 ? n : 0);
		size_t k = f.write_sprintf(L"%ls|%*d|%.*f|%x", loc, ws.c_str(), w, x, p, d, x);
		if (f.out != raw(want)) c.fail("format-wide", "formatted %d characters as %zu bytes", n, f.out.size());
		if (k != want.size()) c.fail("format-count", "returned %zu, want %zu", k, want.size());
	}
	if (!f.ok()) c.fail("format-state", "state is %s", sname(f.state()));
	c.sig(fmt("%zu %d %d %d %g", len, x, w, p, d));
}

// Text written to streams that fail, and byte-order marks behind files that do not seek.
template <class T_mem, class T_file> static void faulty(Case& c, charset_id mem_cs, charset_id file_cs, const std::u32string& text, std::basic_string<T_mem>(*to_mem)(const std::u32string&), std::basic_string<T_file>(*to_file)(const std::u32string&))
{
	auto& r = c.rng;
	stdex::charset_encoder<T_mem, T_file> out(mem_cs, file_cs);
	auto m = to_mem(text);
	auto want = raw(to_file(text));
	FaultStream s;
	const bool failed = r.chance(1, 4);
	if (!failed) s.fail_write_at = static_cast<size_t>(r.below(want.size() + 3));
	s.transient = r.coin();
	if (failed) s.set_state(r.one({ state_t::fail, state_t::eof }));
	const auto before = s.state();
	const size_t room = failed ? 0 : std::min(s.fail_write_at, want.size());
	size_t n;
	switch (r.below(3)) {
	case 0: n = s.write_array(m, out); break;
	case 1: n = s.write_array(m.c_str(), out); break;
	default: { Exact<T_mem> e(m); n = s.write_array(static_cast<const T_mem*>(e.data()), m.size(), out); }
	}
	auto what = fmt("%s of %zu bytes to a stream %s", show(text).c_str(), want.size(), failed ? "that failed before" : fmt("with room for %zu", room).c_str());
	if (s.out != std::vector<uint8_t>(want.begin(), want.begin() + room)) c.fail("fault-bytes", "%s: %zu bytes arrived, want %zu, or others", what.c_str(), s.out.size(), room);
	if (n != room / sizeof(T_file)) c.fail("fault-count", "%s: returned %zu code units, want %zu", what.c_str(), n, room / sizeof(T_file));
	if (failed ? s.state() != before : s.ok() != (room == want.size())) c.fail("fault-state", "%s: state %s afterwards", what.c_str(), sname(s.state()));
	c.count("faults", failed || room < want.size());
	c.sig(hash_bytes(want.data(), want.size(), room * 4 + failed));
}

struct SeekFails : IdealFile
{
	int at = -1, seeks = 0;
	virtual sx::fpos_t seek(sx::foff_t offset, sx::seek_t how = sx::seek_t::beg)
	{
		if (seeks++ == at) { m_state = state_t::fail; return sx::fpos_max; }
		return IdealFile::seek(offset, how);
	}
};

VH_GROUP(faults, 8000, 80000, 3000)
{
	auto& r = c.rng;
	auto text = random_unicode(r, true);
	auto id32 = [](const std::u32string& s) { return s; };
	switch (r.below(7)) {
	case 0: faulty<wchar_t, char>(c, charset_id::utf32, charset_id::utf8, text, wide, u8); break;
	case 1: faulty<wchar_t, char16_t>(c, charset_id::utf32, charset_id::utf16, text, wide, u16); break;
	case 2: faulty<char, char16_t>(c, charset_id::utf8, charset_id::utf16, text, u8, u16); break;
	case 3: faulty<char, char32_t>(c, charset_id::utf8, charset_id::utf32, text, u8, id32); break;
	case 4: faulty<char, char>(c, charset_id::utf8, charset_id::utf8, text, u8, u8); break;
	case 5: {
		// Formatted text.
		auto t = u8(text);
		FaultStream s;
		char* want = nullptr;
		int x = static_cast<int>(r.next()), n = asprintf(&want, "%s%d", t.c_str(), x);
		s.fail_write_at = static_cast<size_t>(r.below(n + 3));
		size_t room = std::min<size_t>(s.fail_write_at, n), k = s.write_sprintf("%s%d", stdex::locale_default, t.c_str(), x);
		if (k != room || s.out.size() != room || memcmp(s.out.data(), want, room)) c.fail("format-fault", "%d formatted characters to room for %zu: returned %zu, %zu arrived", n, room, k, s.out.size());
		if (s.ok() != (room == static_cast<size_t>(n))) c.fail("format-fault-state", "%d formatted characters to room for %zu: state %s", n, room, sname(s.state()));
		c.sig(hash_str(want, room));
		free(want);
		break;
	}
	default: {
		// The charset is told from the start of the file or not at all.
		SeekFails f;
		auto cs = r.one({ charset_id::utf8, charset_id::utf16, charset_id::utf32, charset_id::windows1250 });
		f.write_charset(cs);
		auto body = u8(text);
		if (!body.empty()) f.write(body.data(), body.size());
		f.seekbeg(r.below(9));
		f.seeks = 0;
		f.at = static_cast<int>(r.below(5));
		bool threw = false;
		charset_id got = charset_id::system;
		try { got = f.read_charset(charset_id::windows1250); }
		catch (const std::system_error&) { threw = true; }
		if (threw != (f.seeks > f.at)) c.fail("bom-seek", "charset %d, seek %d of %d fails: %s", (int)cs, f.at, f.seeks, threw ? "reported for no reason" : "not reported");
		if (!threw && got != cs && !(text.size() && text[0] == 0xfeff)) c.fail("bom-read", "charset %d read as %d", (int)cs, (int)got);
		c.count("seek_failures", threw);
		c.sig(hash_str(body, (int)cs * 8 + f.at));
	}
	}
}

VH_MAIN
