// Independent UTF-8 codec and text generators used by several harnesses.
#pragma once
#include "vf.hpp"
#include <string>
#include <vector>

namespace uni {

inline void put(std::string & s, uint32_t c) {
	if (c < 0x80) s += (char) c;
	else if (c < 0x800) { s += (char) (0xC0 | (c >> 6)); s += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char) (0xE0 | (c >> 12)); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
	else { s += (char) (0xF0 | (c >> 18)); s += (char) (0x80 | ((c >> 12) & 63)); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
}
inline std::string encode(const std::u32string & v) { std::string s; for (auto c : v) put(s, c); return s; }
inline std::u16string encode16(const std::u32string & v) {
	std::u16string s;
	for (auto c : v) {
		if (c < 0x10000) s += (char16_t) c;
		else { s += (char16_t) (0xD800 + ((c - 0x10000) >> 10)); s += (char16_t) (0xDC00 + ((c - 0x10000) & 0x3FF)); }
	}
	return s;
}
// Length of the well-formed sequence at 'at', or 0 (Unicode table 3-7).
inline int sequence(const std::string & s, size_t at, uint32_t & c) {
	auto b = [&] (size_t k) -> int { return at + k < s.size() ? (unsigned char) s[at + k] : -1; };
	int a = b(0);
	if (a < 0) return 0;
	if (a < 0x80) { c = (uint32_t) a; return 1; }
	auto tail = [] (int x) { return x >= 0x80 && x <= 0xBF; };
	if (a >= 0xC2 && a <= 0xDF) { if (!tail(b(1))) return 0; c = (uint32_t) ((a & 31) << 6 | (b(1) & 63)); return 2; }
	if (a >= 0xE0 && a <= 0xEF) {
		int lo = a == 0xE0 ? 0xA0 : 0x80, hi = a == 0xED ? 0x9F : 0xBF;
		if (b(1) < lo || b(1) > hi || !tail(b(2))) return 0;
		c = (uint32_t) ((a & 15) << 12 | (b(1) & 63) << 6 | (b(2) & 63));
		return 3;
	}
	if (a >= 0xF0 && a <= 0xF4) {
		int lo = a == 0xF0 ? 0x90 : 0x80, hi = a == 0xF4 ? 0x8F : 0xBF;
		if (b(1) < lo || b(1) > hi || !tail(b(2)) || !tail(b(3))) return 0;
		c = (uint32_t) ((a & 7) << 18 | (b(1) & 63) << 12 | (b(2) & 63) << 6 | (b(3) & 63));
		return 4;
	}
	return 0;
}
inline bool valid(const std::string & s) {
	uint32_t c;
	for (size_t m = 0; m < s.size();) { int n = sequence(s, m, c); if (!n) return false; m += (size_t) n; }
	return true;
}
inline std::u32string decode(const std::string & s) { // of valid text
	std::u32string v;
	uint32_t c;
	for (size_t m = 0; m < s.size();) { int n = sequence(s, m, c); if (!n) break; v += (char32_t) c; m += (size_t) n; }
	return v;
}
inline char32_t anyCodePoint(vf::Rng & r) {
	switch (r.below(6)) {
		case 0: return r.of<char32_t>({ 0, 1, 0x7F, 0x80, 0xA0, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x130, 0x131, 0xDF, 0x1E9E, 0x17F, 0x212A });
		case 1: { char32_t c; do c = (char32_t) r.below(0x110000); while (c >= 0xD800 && c < 0xE000); return c; }
		case 2: return (char32_t) r.range(0xA0, 0x600);
		default: return (char32_t) r.below(128);
	}
}
inline std::string hostile(vf::Rng & r, int max) { // arbitrary bytes, biased to nearly valid UTF-8
	std::string s;
	for (int n = (int) r.below((uint64_t) max + 1); n > 0; --n) {
		switch (r.below(6)) {
			case 0: s += (char) r.below(256); break;
			case 1: s += (char) r.of<int>({ 0xC0, 0xC1, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 0x80, 0xBF }); break;
			case 2: put(s, anyCodePoint(r)); if (r.chance(1, 3)) s.pop_back(); break;
			case 3: put(s, r.of<uint32_t>({ ' ', 0xA0, 0x2003, 0x3000, 0x2028 })); break;
			default: s += (char) r.below(128); break;
		}
	}
	return s;
}
// A copy whose end is the end of an allocation, so that reading beyond it is seen.
struct Exact {
	char * p; size_t n;
	explicit Exact(const std::string & s) : p((char *) malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); if (!n) { free(p); p = (char *) malloc(0); } }
	Exact(const Exact &) = delete;
	~Exact() { free(p); }
	operator std::string_view () const { return std::string_view(p, n); }
	std::string_view view() const { return std::string_view(p, n); }
};

} // namespace uni
