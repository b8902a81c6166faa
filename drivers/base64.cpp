// E01: Base64 against OpenSSL's EVP encoder and an independent decoder, in memory and as stream filters, under every chunking.
#include "fstreams.hpp"
#include <openssl/evp.h>
#include <stdex/base64.hpp>

using namespace vh;

static std::string ref_enc(const std::vector<uint8_t>& v)
{
	std::string s((v.size() + 2) / 3 * 4 + 1, 0);
	int n = EVP_EncodeBlock(reinterpret_cast<unsigned char*>(&s[0]), v.data(), static_cast<int>(v.size()));
	s.resize(n);
	return s;
}

static std::vector<size_t> cuts(Rng& r, size_t n)
{
	std::vector<size_t> v;
	size_t at = 0;
	while (at < n) {
		size_t k = r.chance(1, 6) ? 0 : 1 + (r.coin() ? r.below(4) : r.below(n));
		k = std::min(k, n - at);
		v.push_back(k);
		at += k;
	}
	if (v.empty() || r.chance(1, 4)) v.push_back(0);
	return v;
}

template <class T>
static void enc_mem(Case& c)
{
	auto& r = c.rng;
	stdex::base64_enc e;
	uint64_t sg = sizeof(T);
	for (unsigned round = 0, n = 1 + static_cast<unsigned>(r.below(3)); round < n; round++) { // The session is reused
		auto v = r.bytes(r.size(600));
		auto want = ref_enc(v);
		std::basic_string<T> out;
		std::basic_string<T> pre(r.below(5), 'p');
		out = pre;
		Exact<uint8_t> x(v);
		auto k = cuts(r, v.size());
		size_t at = 0;
		for (size_t i = 0; i < k.size(); i++) {
			size_t before = out.size(), max = e.enc_size(k[i]);
			Exact<uint8_t> chunk(v.data() + at, k[i]);
			e.encode(out, chunk.data(), k[i], i + 1 == k.size());
			VH_CHECK(c, out.size() - before <= max, "enc-size", "%zu characters produced, enc_size() said %zu", out.size() - before, max);
			at += k[i];
			sg = mix(sg ^ k[i]);
		}
		std::basic_string<T> w = pre + std::basic_string<T>(want.begin(), want.end());
		VH_CHECK(c, out == w, "encode", "%zu bytes in %zu chunks: %s, %s expected", v.size(), k.size(), show(out).c_str(), show(w).c_str());
		if (c.failed) return;
		if (r.chance(1, 4)) { std::basic_string<T> t; e.encode(t, "ab", 1 + r.below(2), false); e.clear(); } // An abandoned session leaves nothing behind
		if (v.size() > 2) c.sig(hash_bytes(v.data(), v.size(), sg));
	}
}
VH_GROUP(encode_memory, 40000, 200000, 2000)
{
	switch (c.index % 3) {
	case 0: enc_mem<char>(c); break;
	case 1: enc_mem<wchar_t>(c); break;
	default: enc_mem<char16_t>(c); break;
	}
}

// Text around and within Base64 that is to be ignored: everything outside of the alphabet.
template <class T>
static std::basic_string<T> noisy(Rng& r, const std::string& s, unsigned density)
{
	std::basic_string<T> o;
	for (char ch : s) {
		while (density && r.below(100) < density) {
			static const char ws[] = " \r\n\t-_.\"\x7f\x01";
			uint32_t n = r.chance(1, 8) ? 0x80 + static_cast<uint32_t>(r.below(sizeof(T) == 1 ? 0x80 : 0x700)) : static_cast<uint32_t>(ws[r.below(sizeof(ws) - 1)]);
			o += static_cast<T>(n);
		}
		o += static_cast<T>(ch);
	}
	return o;
}

// Independent decoder of one segment. `odd`: padding at a place where it has no meaning, the result is not specified.
template <class T>
static std::vector<uint8_t> ref_dec(const std::basic_string<T>& s, bool& last, bool& odd, size_t& pending)
{
	static const std::string abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=";
	std::vector<uint8_t> out;
	last = odd = false;
	std::vector<unsigned> q;
	for (T ch : s) {
		if (!ch) break;
		if (static_cast<typename std::make_unsigned<T>::type>(ch) >= 0x80) continue;
		auto p = abc.find(static_cast<char>(ch));
		if (p == std::string::npos) continue;
		q.push_back(static_cast<unsigned>(p));
		if (q.size() < 4) continue;
		if (q[0] == 64 || q[1] == 64 || (q[2] == 64 && q[3] != 64)) odd = true;
		uint32_t n = (q[0] & 63) << 18 | (q[1] & 63) << 12 | (q[2] & 63) << 6 | (q[3] & 63);
		out.push_back(static_cast<uint8_t>(n >> 16));
		if (q[2] != 64) out.push_back(static_cast<uint8_t>(n >> 8));
		if (q[2] != 64 && q[3] != 64) out.push_back(static_cast<uint8_t>(n));
		if (q[2] == 64 || q[3] == 64) last = true;
		q.clear();
		if (last) break;
	}
	pending = q.size();
	return out;
}

template <class T, class To>
static void dec_mem(Case& c)
{
	auto& r = c.rng;
	stdex::base64_dec d;
	for (unsigned round = 0, n = 1 + static_cast<unsigned>(r.below(3)); round < n; round++) {
		std::basic_string<T> text;
		if (r.chance(2, 3)) {
			auto v = r.bytes(r.size(400));
			text = noisy<T>(r, ref_enc(v), r.coin() ? 0 : static_cast<unsigned>(r.below(60)));
			if (r.chance(1, 4)) text.resize(r.below(text.size() + 1));
			else if (r.chance(1, 6)) { auto w = r.bytes(r.size(40)); text += noisy<T>(r, ref_enc(w), 10); } // Something follows the end
		}
		else {
			size_t len = r.size(300);
			for (size_t i = 0; i < len; i++)
				text += static_cast<T>(r.chance(1, 30) ? '=' : r.chance(3, 4) ? "ABCDwxyz0189+/"[r.below(14)] : r.chance(1, 40) ? 0 : static_cast<T>(r.next()));
		}
		bool last, odd;
		size_t pending;
		auto want = ref_dec(text, last, odd, pending);
		// All at once
		{
			stdex::base64_dec d1;
			std::vector<To> o1;
			bool l1 = !last;
			Exact<T> x(text);
			size_t max = d1.dec_size(text.size());
			d1.decode(o1, l1, x.data(), text.size());
			VH_CHECK(c, o1.size() <= max, "dec-size", "%zu bytes produced, dec_size() said %zu", o1.size(), max);
			VH_CHECK(c, l1 == last, "decode-last", "end of data reported %d for %s", l1, show(text).c_str());
			if (!odd) VH_CHECK(c, o1.size() == want.size() && std::equal(want.begin(), want.end(), o1.begin(), [](uint8_t a, To b) { return static_cast<To>(a) == b; }), "decode", "%s gives %zu bytes, %zu expected", show(text).c_str(), o1.size(), want.size());
			else VH_CHECK(c, o1.size() == want.size(), "decode-odd-count", "%zu bytes, %zu expected", o1.size(), want.size());
			if (o1.size() != want.size()) return;
			for (size_t i = 0; i < want.size(); i++) want[i] = static_cast<uint8_t>(o1[i]);
		}
		// In chunks, appended to what was there
		std::vector<To> out(r.below(4), To(7));
		size_t pre = out.size();
		size_t z = text.find(T(0));
		auto k = cuts(r, std::min(z, text.size()));
		size_t at = 0;
		bool l = false;
		for (size_t i = 0; i < k.size() && !l; i++) {
			Exact<T> x(text.data() + at, k[i]);
			size_t before = out.size(), max = d.dec_size(k[i]);
			d.decode(out, l, x.data(), k[i]);
			VH_CHECK(c, out.size() - before <= max, "dec-size", "%zu bytes produced, dec_size() said %zu", out.size() - before, max);
			at += k[i];
		}
		VH_CHECK(c, l == last, "decode-last-chunked", "end of data reported %d in chunks for %s", l, show(text).c_str());
		bool same = out.size() == pre + want.size();
		for (size_t i = 0; same && i < want.size(); i++) same = static_cast<uint8_t>(out[pre + i]) == want[i];
		for (size_t i = 0; same && i < pre; i++) same = out[i] == To(7);
		VH_CHECK(c, same, "decode-chunked", "%s in %zu chunks gives %zu bytes, %zu expected", show(text).c_str(), k.size(), out.size() - pre, want.size());
		if (c.failed) return;
		if (pending) d.clear();
		if (want.size() > 2) c.sig(hash_bytes(text.data(), text.size() * sizeof(T), k.size()));
	}
}
VH_GROUP(decode_memory, 60000, 300000, 2500)
{
	switch (c.index % 4) {
	case 0: dec_mem<char, uint8_t>(c); break;
	case 1: dec_mem<wchar_t, uint8_t>(c); break;
	case 2: dec_mem<char, char>(c); break;
	default: dec_mem<char16_t, uint8_t>(c); break;
	}
}

VH_GROUP(writer, 30000, 150000, 1500)
{
	auto& r = c.rng;
	auto v = r.bytes(r.size(800));
	size_t max_blocks = r.chance(1, 4) ? SIZE_MAX : r.coin() ? 19 : 1 + r.below(30);
	auto want1 = ref_enc(v);
	std::string want;
	for (size_t i = 0; i < want1.size(); i += 4) {
		if (i && max_blocks != SIZE_MAX && i / 4 % max_blocks == 0) want += '\n';
		want += want1.substr(i, 4);
	}
	FaultStream s;
	bool faulty = r.chance(1, 4) && !want.empty();
	if (faulty) s.fail_write_at = r.below(want.size());
	bool closed = r.chance(1, 4), failed = false;
	size_t at = 0, taken = 0;
	{
		stdex::base64_writer w(s, max_blocks);
		for (size_t k : cuts(r, v.size())) {
			Exact<uint8_t> x(v.data() + at, k);
			size_t n = w.write(x.data(), k);
			VH_CHECK(c, n <= k, "write-count", "write(%zu) returned %zu", k, n);
			taken += n;
			if (n < k || !w.ok()) {
				failed = true;
				VH_CHECK(c, faulty, "write-state", "write(%zu) returned %zu, state %s", k, n, sname(w.state()));
				VH_CHECK(c, !w.ok(), "write-fault-state", "write(%zu) returned %zu, state ok", k, n);
				// What was taken was at least what reached the sink, and no more than one block beyond it
				size_t blocks = std::count_if(s.out.begin(), s.out.end(), [](uint8_t b) { return b != '\n'; }) / 4;
				VH_CHECK(c, taken >= blocks * 3 && taken <= blocks * 3 + 3, "write-fault-count", "%zu bytes reported taken, %zu blocks at the sink", taken, blocks);
				break;
			}
			at += k;
		}
		if (closed) {
			w.close();
			VH_CHECK(c, s.closes == 1, "writer-close", "stream closed %u times", s.closes);
			if (!failed) VH_CHECK(c, w.ok() == !faulty || s.out.size() == want.size(), "writer-close-state", "state %s after close", sname(w.state()));
		}
	}
	std::string got(s.out.begin(), s.out.end());
	if (!faulty) {
		VH_CHECK(c, got == want, "writer", "%zu bytes, %zu blocks per line: %s, %s expected", v.size(), max_blocks, show(got).c_str(), show(want).c_str());
		if (closed) VH_CHECK(c, s.at_close == want.size(), "writer-close-loss", "%zu of %zu characters written before close", s.at_close, want.size());
	}
	else
		VH_CHECK(c, got == want.substr(0, got.size()), "writer-fault", "%s is not a beginning of %s", show(got).c_str(), show(want).c_str());
	c.count(faulty ? "faults" : "written");
	if (v.size() > 2) c.sig(hash_bytes(v.data(), v.size(), max_blocks));
}

VH_GROUP(reader, 30000, 200000, 2000)
{
	auto& r = c.rng;
	auto v = r.bytes(r.size(800));
	auto text = noisy<char>(r, ref_enc(v), r.coin() ? 0 : static_cast<unsigned>(r.below(50)));
	bool cut = r.chance(1, 5), fault = r.chance(1, 5);
	if (cut) text.resize(r.below(text.size() + 1));
	if (r.chance(1, 6)) text += "\r\n  ";
	size_t visible = text.size();
	FaultStream s;
	s.in.assign(text.begin(), text.end());
	if (fault) { s.fail_read_at = r.below(text.size() + 1); s.transient = r.coin(); if (!s.transient) visible = std::min(visible, s.fail_read_at); }
	bool last, odd;
	size_t pending;
	auto want = ref_dec(text.substr(0, visible), last, odd, pending);
	std::vector<uint8_t> got;
	{
		stdex::base64_reader rd(s);
		unsigned zero = 0;
		bool one = r.chance(1, 4);
		for (unsigned i = 0; i < 5000; i++) {
			size_t n = one ? 1 : r.chance(1, 8) ? 0 : 1 + (r.coin() ? r.below(8) : r.below(900));
			Exact<uint8_t> buf(std::vector<uint8_t>(n, 0xee));
			size_t k = rd.read(buf.data(), n);
			if (k > n) { c.fail("read-count", "read(%zu) returned %zu", n, k); return; }
			VH_CHECK(c, !n || k || !rd.ok(), "read-state", "nothing read, state ok");
			got.insert(got.end(), buf.p, buf.p + k);
			if (n && !k) {
				// A failure of the source that comes once: read_data() leaves the stream failed, cleared here
				if (fault && s.state() == state_t::fail && zero++ == 0 && s.transient == (s.fail_read_at == SIZE_MAX)) { VH_CHECK(c, rd.state() == state_t::fail, "read-fault-state", "state %s after the source failed", sname(rd.state())); if (!s.transient) break; s.set_state(state_t::ok); continue; }
				VH_CHECK(c, rd.state() == (fault && s.fail_read_at != SIZE_MAX ? state_t::fail : state_t::eof), "read-end-state", "state %s at the end", sname(rd.state()));
				break;
			}
			if (n && k < n) {
				// Short: the end of data, the end of the source, or its failure
				VH_CHECK(c, got.size() == want.size() || fault, "read-short", "read(%zu) returned %zu after %zu of %zu bytes", n, k, got.size() - k, want.size());
				if (fault) s.set_state(state_t::ok);
			}
		}
	}
	VH_CHECK(c, got == want, "reader", "%s gives %zu bytes, %zu expected", show(text).c_str(), got.size(), want.size());
	c.count("read", got.size());
	if (v.size() > 2) c.sig(hash_bytes(text.data(), text.size(), got.size()));
}

// Arbitrary text, read with random sizes: terminates, stays in bounds, the same for every chunking.
VH_GROUP(reader_arbitrary, 20000, 150000, 1500)
{
	auto& r = c.rng;
	std::vector<uint8_t> t(r.size(400));
	for (auto& b : t) b = static_cast<uint8_t>(r.chance(1, 12) ? '=' : r.chance(3, 4) ? "ABCDwxyz0189+/"[r.below(14)] : r.next());
	auto run = [&](size_t step) {
		FaultStream s;
		s.in = t;
		stdex::base64_reader rd(s);
		std::vector<uint8_t> got;
		for (unsigned i = 0; i < 5000; i++) {
			size_t n = step ? step : 1 + r.below(50);
			Exact<uint8_t> buf(std::vector<uint8_t>(n, 0xee));
			size_t k = rd.read(buf.data(), n);
			if (k > n) { c.fail("read-count", "read(%zu) returned %zu", n, k); return got; }
			got.insert(got.end(), buf.p, buf.p + k);
			if (!k) { VH_CHECK(c, rd.state() == state_t::eof, "read-end-state", "state %s at the end", sname(rd.state())); break; }
		}
		return got;
	};
	auto a = run(1), b = run(0), d = run(3);
	VH_CHECK(c, a == b && a == d, "reader-chunking", "%s gives %zu, %zu and %zu bytes in chunks", show(t).c_str(), a.size(), b.size(), d.size());
	if (a.size() > 2) c.sig(hash_bytes(t.data(), t.size()));
}

VH_MAIN
