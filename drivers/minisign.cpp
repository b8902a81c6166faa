// M01: signature files in the published layout, generated and damaged, against an independent reader.
#include "fstreams.hpp"
#include <stdex/minisign.hpp>

using namespace vh;

static const char* const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc64(const std::vector<uint8_t>& v)
{
	std::string s;
	for (size_t i = 0; i < v.size(); i += 3) {
		size_t n = std::min<size_t>(3, v.size() - i);
		uint32_t x = 0;
		for (size_t k = 0; k < 3; k++) x = x << 8 | (k < n ? v[i + k] : 0);
		for (size_t k = 0; k < 4; k++) s += k <= n ? alphabet[x >> (18 - 6 * k) & 63] : '=';
	}
	return s;
}
// Independent reader. Lenient exactly as documented for the decoder: characters outside of the alphabet are skipped, decoding ends at padding or a terminator.
static std::vector<uint8_t> dec64(const std::string& s)
{
	std::vector<uint8_t> out;
	unsigned q[4], n = 0;
	for (char ch : s) {
		if (!ch) break;
		const char* p = strchr(alphabet, ch);
		if (!p && ch != '=') continue;
		q[n++] = p ? static_cast<unsigned>(p - alphabet) : 64;
		if (n < 4) continue;
		n = 0;
		out.push_back(static_cast<uint8_t>(q[0] << 2 | q[1] >> 4));
		if (q[2] > 63) return out;
		out.push_back(static_cast<uint8_t>(q[1] << 4 | q[2] >> 2));
		if (q[3] > 63) return out;
		out.push_back(static_cast<uint8_t>(q[2] << 6 | q[3]));
	}
	return out;
}
static std::vector<std::string> lines(const std::string& s)
{
	std::vector<std::string> v;
	size_t at = 0;
	while (at < s.size()) {
		size_t e = s.find('\n', at), n = e == s.npos ? s.size() : e;
		std::string l = s.substr(at, n - at);
		if (e != s.npos && !l.empty() && l.back() == '\r') l.pop_back();
		v.push_back(l);
		at = n + 1;
	}
	return v;
}

struct Result { bool ok = false; uint8_t alg = 0; std::vector<uint8_t> key, sig; std::string what; };
static Result run(Case& c, FaultStream& f)
{
	Result z;
	std::vector<uint8_t> k0(8, 0xa5), s0(64, 0x5a);
	Exact<uint8_t> key(k0), sg(s0);
	try {
		stdex::minisign::parse_minisig(f, z.alg, key.data(), sg.data());
		z.ok = true;
		z.key.assign(key.p, key.p + 8);
		z.sig.assign(sg.p, sg.p + 64);
	}
	catch (const std::runtime_error& e) { z.what = e.what(); c.count("rejected"); }
	return z;
}

static std::string nl(Rng& r) { return r.chance(1, 4) ? "\r\n" : "\n"; }
static std::string junk_comment(Rng& r)
{
	std::string s = "untrusted comment:";
	for (size_t n = r.size(60); n; --n) s += static_cast<char>(r.chance(1, 8) ? 128 + r.below(128) : 32 + r.below(95));
	return s;
}

// Does the file say something the statement does not settle? (padding in odd places, more than 74 bytes)
VH_GROUP(layout, 40000, 400000, 2000)
{
	auto& r = c.rng;
	auto data = r.bytes(74);
	for (size_t i = 1; i < 74; i++) if (r.chance(1, 2)) data[i] = static_cast<uint8_t>(r.next());
	data[0] = 'E';
	data[1] = r.coin() ? 'd' : 'D';
	std::string s;
	for (size_t n = r.below(3); n; --n) s += nl(r);
	if (!r.chance(1, 6)) for (size_t n = 1 + r.below(2); n; --n) {
		s += junk_comment(r) + nl(r);
		if (r.chance(1, 6)) s += nl(r);
	}
	s += enc64(data);
	switch (r.below(4)) {
	case 0: break; // the signature line ends with the file
	case 1: s += nl(r); break;
	default: // trailer: trusted comment and global signature
		s += nl(r) + "trusted comment: timestamp:1" + nl(r) + enc64(r.bytes(64));
		if (r.coin()) s += nl(r);
	}
	FaultStream f;
	f.in.assign(s.begin(), s.end());
	f.read_rng = r.coin() ? r.next() | 1 : 0;
	auto z = run(c, f);
	VH_CHECK(c, z.ok, "reject", "%s: %s", show(s, 400).c_str(), z.what.c_str());
	if (!z.ok) return;
	VH_CHECK(c, z.alg == data[1], "algorithm", "%02x, %02x written", z.alg, data[1]);
	VH_CHECK(c, std::equal(z.key.begin(), z.key.end(), data.begin() + 2), "key-id", "%s in %s", show(z.key).c_str(), show(s, 300).c_str());
	VH_CHECK(c, std::equal(z.sig.begin(), z.sig.end(), data.begin() + 10), "signature", "%s in %s", show(z.sig).c_str(), show(s, 300).c_str());
	c.sig(hash_str(s));
	if (c.index < 2) c.sample(show(s, 200));
}

VH_GROUP(damaged, 80000, 800000, 2000)
{
	auto& r = c.rng;
	auto data = r.bytes(r.chance(1, 3) ? r.below(80) : r.range(70, 77));
	if (data.size() > 1 && !r.chance(1, 8)) { data[0] = 'E'; data[1] = r.coin() ? 'd' : 'D'; }
	std::string s;
	if (!r.chance(1, 8)) s += junk_comment(r) + nl(r);
	s += enc64(data);
	if (r.coin()) s += nl(r) + "trusted comment: t" + nl(r) + enc64(r.bytes(64)) + nl(r);
	for (size_t n = r.below(5); n; --n) {
		if (s.empty()) break;
		size_t i = r.below(r.coin() ? std::min<size_t>(s.size(), 20) : s.size());
		switch (r.below(6)) {
		case 0: s.resize(i); break;
		case 1: s[i] = static_cast<char>(r.next()); break;
		case 2: s.erase(i, 1 + r.below(4)); break;
		case 3: s.insert(i, 1, "\n\r =\0uE"[r.below(7)]); break;
		case 4: s.erase(0, i); break;
		default: s.insert(i, r.one({ "untrusted comment", "untrusted comment:", "\nuntrusted comment:", "untrusted", "\n\n", "\r\r\n", "====" }));
		}
	}
	// The whole signature, and more of the line behind the place where reading fails
	bool late = r.chance(1, 6);
	size_t late_at = 0;
	if (late) {
		auto d = r.bytes(r.range(74, 90));
		d[0] = 'E';
		s = r.chance(1, 4) ? std::string() : "untrusted comment: late\n";
		late_at = s.size() + 100;
		s += enc64(d) + (r.coin() ? "\ntrusted comment: t\n" : "");
	}
	else if (r.chance(1, 20)) { auto v = r.bytes(r.size(300)); s.assign(v.begin(), v.end()); }
	FaultStream f;
	f.in.assign(s.begin(), s.end());
	f.read_rng = r.coin() ? r.next() | 1 : 0;
	bool faulty = r.chance(1, 5);
	if (late) { faulty = r.chance(3, 4); if (faulty) { f.fail_read_at = std::min(s.size(), late_at + r.below(30)); f.transient = r.coin(); } }
	else if (faulty) { f.fail_read_at = r.below(s.size() + 1); f.transient = r.coin(); }
	auto z = run(c, f);

	std::string line;
	bool found = false;
	for (auto& l : lines(s))
		if (!l.empty() && l.compare(0, 18, "untrusted comment:") != 0) { line = l; found = true; break; }
	auto d = dec64(line);
	bool valid = found && d.size() >= 74 && d[0] == 'E';
	if (z.ok) {
		// Under a fault the reader may refuse; it must never deliver something the file does not say.
		VH_CHECK(c, valid, "accept", "%s", show(s, 400).c_str());
		if (valid)
			VH_CHECK(c, z.alg == d[1] && std::equal(z.key.begin(), z.key.end(), d.begin() + 2) && std::equal(z.sig.begin(), z.sig.end(), d.begin() + 10), "values", "%s", show(s, 400).c_str());
		c.count("accepted");
	}
	else if (!faulty) {
		// Padding followed by more, and surplus data, are not settled: refusing them is right too.
		bool plain = line.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=") == line.npos && d.size() == 74 && line.size() == 100;
		VH_CHECK(c, !(valid && plain), "reject", "%s: %s", show(s, 400).c_str(), z.what.c_str());
	}
	c.sig(hash_str(s));
}

// The two parsers of the layout, on exact ranges
VH_GROUP(tokens, 60000, 400000, 200)
{
	auto& r = c.rng;
	static stdex::minisign::untrusted_comment reused_uc;
	static stdex::minisign::line_break reused_lb;
	std::string s = r.chance(2, 3) ? std::string("untrusted comment:") : std::string();
	for (size_t n = r.below(4); n; --n) s += "\r\n:u \0"[r.below(6)];
	for (size_t n = r.below(3); n; --n) {
		size_t i = r.below(s.size() + 1);
		if (r.coin()) s.resize(i);
		else if (i < s.size()) s[i] = r.coin() ? static_cast<char>(r.next()) : static_cast<char>(s[i] ^ 0x20);
	}
	size_t start = r.below(4), end = start + s.size();
	std::string t = std::string(start, r.coin() ? '\r' : 'u') + s;
	Exact<char> x(t);
	stdex::minisign::untrusted_comment uc1;
	stdex::minisign::line_break lb1;
	auto& uc = r.coin() ? reused_uc : uc1;
	auto& lb = r.coin() ? reused_lb : lb1;
	bool m = uc.match(x.data(), start, end), want = s.compare(0, 18, "untrusted comment:") == 0;
	VH_CHECK(c, m == want, "comment-match", "%s: %d", show(s).c_str(), m);
	VH_CHECK(c, m ? uc.interval.start == start && uc.interval.end == start + 18 : !uc.interval, "comment-interval", "%s: %zu..%zu", show(s).c_str(), uc.interval.start, uc.interval.end);
	m = lb.match(x.data(), start, end);
	size_t n = s.compare(0, 2, "\r\n") == 0 ? 2 : s.compare(0, 1, "\n") == 0 ? 1 : 0;
	VH_CHECK(c, m == (n != 0), "break-match", "%s: %d", show(s).c_str(), m);
	VH_CHECK(c, m ? lb.interval.start == start && lb.interval.end == start + n : !lb.interval, "break-interval", "%s: %zu..%zu", show(s).c_str(), lb.interval.start, lb.interval.end);
	c.sig(hash_str(t, start));
}

VH_MAIN
