// E02: hexadecimal encoding against an independent coder, under every chunking.
#include "vh.hpp"
#include <stdex/compat.hpp>
#include <stdex/hex.hpp>

using namespace vh;

template <class T>
static void enc(Case& c)
{
	auto& r = c.rng;
	stdex::hex_enc e;
	auto v = r.bytes(r.size(500));
	std::basic_string<T> out(r.below(4), 'p'), want = out;
	for (uint8_t b : v) for (char ch : fmt("%02X", b)) want += static_cast<T>(ch);
	size_t at = 0;
	do {
		size_t k = r.chance(1, 8) ? 0 : 1 + r.below(r.coin() ? 3 : 500);
		k = std::min(k, v.size() - at);
		Exact<uint8_t> x(v.data() + at, k);
		size_t before = out.size(), max = e.enc_size(k);
		e.encode(out, x.data(), k);
		VH_CHECK(c, out.size() - before == max, "enc-size", "%zu characters produced, enc_size() said %zu", out.size() - before, max);
		at += k;
	} while (at < v.size());
	VH_CHECK(c, out == want, "encode", "%s, %s expected", show(out).c_str(), show(want).c_str());
	if (v.size() > 1) c.sig(hash_bytes(v.data(), v.size(), sizeof(T)));
}
VH_GROUP(encode, 40000, 200000, 2000)
{
	switch (c.index % 3) {
	case 0: enc<char>(c); break;
	case 1: enc<wchar_t>(c); break;
	default: enc<char16_t>(c); break;
	}
}

template <class T, class To>
static void dec(Case& c)
{
	auto& r = c.rng;
	stdex::hex_dec d;
	for (unsigned round = 0, rounds = 1 + static_cast<unsigned>(r.below(3)); round < rounds; round++) {
		std::basic_string<T> text;
		bool plain = r.chance(2, 3);
		std::vector<uint8_t> bytes = r.bytes(r.size(300));
		if (plain) {
			// What encode() or anyone else produced, with anything that is not a digit in between
			unsigned density = r.coin() ? 0 : static_cast<unsigned>(r.below(60));
			bool mixed = r.coin();
			for (uint8_t b : bytes)
				for (char ch : fmt(mixed && r.coin() ? "%02x" : "%02X", b)) {
					while (r.below(100) < density) text += static_cast<T>(" \r\n\t-:gG/@`xX"[r.below(13)]);
					text += static_cast<T>(ch);
				}
			if (r.chance(1, 6)) text += static_cast<T>(0), text += static_cast<T>('A');
		}
		else {
			size_t len = r.size(200);
			for (size_t i = 0; i < len; i++) text += r.chance(2, 3) ? static_cast<T>("0123456789abcdefABCDEF"[r.below(22)]) : static_cast<T>(r.next());
		}
		// Reference
		std::vector<uint8_t> want;
		int hi = -1;
		bool ends_on_digit = false;
		size_t stop = 0;
		for (; stop < text.size() && text[stop]; stop++) {
			T ch = text[stop];
			int x = -1;
			for (int i = 0; i < 16; i++) if (ch == static_cast<T>("0123456789ABCDEF"[i]) || ch == static_cast<T>("0123456789abcdef"[i])) x = i;
			ends_on_digit = x >= 0;
			if (x < 0) continue;
			if (hi < 0) hi = x;
			else { want.push_back(static_cast<uint8_t>(hi << 4 | x)); hi = -1; }
		}
		if (plain) VH_CHECK(c, want == bytes, "self-check", "reference decoder");
		std::vector<To> out(r.below(3), To(9));
		size_t pre = out.size(), at = 0;
		bool last = false;
		bool whole = r.chance(1, 3);
		size_t lastk = 0;
		do {
			size_t k = whole ? text.size() : r.chance(1, 8) ? 0 : 1 + r.below(r.coin() ? 3 : 300);
			k = whole ? k : std::min(k, stop - at);
			Exact<T> x(text.data() + at, k);
			size_t before = out.size(), max = d.dec_size(k);
			d.decode(out, last, x.data(), k);
			VH_CHECK(c, out.size() - before <= max, "dec-size", "%zu bytes produced, dec_size() said %zu", out.size() - before, max);
			at += k;
			lastk = k;
		} while (at < stop);
		bool same = out.size() == pre + want.size();
		for (size_t i = 0; same && i < want.size(); i++) same = static_cast<uint8_t>(out[pre + i]) == want[i];
		VH_CHECK(c, same, "decode", "%s gives %zu bytes, %zu expected", show(text).c_str(), out.size() - pre, want.size());
		// The last block is complete when it ends with the second digit of a byte, and is not when half of a byte is missing
		if (hi >= 0) VH_CHECK(c, !last, "decode-last", "reported complete with half of a byte");
		else if (ends_on_digit && lastk) VH_CHECK(c, last, "decode-last", "complete data reported incomplete: %s", show(text).c_str());
		if (c.failed) return;
		if (hi >= 0) d.clear();
		if (want.size() > 1) c.sig(hash_bytes(text.data(), text.size() * sizeof(T), sizeof(To)));
	}
}
VH_GROUP(decode, 60000, 300000, 2500)
{
	switch (c.index % 4) {
	case 0: dec<char, uint8_t>(c); break;
	case 1: dec<wchar_t, uint8_t>(c); break;
	case 2: dec<char, char>(c); break;
	default: dec<char16_t, uint8_t>(c); break;
	}
}

VH_MAIN
