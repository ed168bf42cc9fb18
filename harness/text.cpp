//
// text.cpp : monitors of the string utilities (P20), of the conversions between
// values and text (P21), and of the character functions (P24).
//
#include "unicode.hpp"

#include <boost/core/demangle.hpp>
#include <Balau/Type/ToString.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Type/Character.hpp>
#include <Balau/Util/Strings.hpp>
#include <unicode/uchar.h>
#include <cmath>
#include <limits>
#include <list>

using namespace Balau;
using S = Util::Strings;
using U32 = std::u32string;

static std::string show(const U32 & s) { return vf::show(uni::encode(s)); }
static std::string show(const std::string & s) { return vf::show(s); }
static std::string show(std::string_view s) { return vf::show(std::string(s)); }
static std::string show(std::u32string_view s) { return show(U32(s)); }
static std::string show(size_t n) { return std::to_string(n); }
static std::string show(bool n) { return n ? "true" : "false"; }
template <typename T> static std::string show(const std::vector<T> & v) {
	std::string s = "[";
	for (auto & e : v) s += show(e) + ",";
	return s + "]";
}

template <typename A, typename B>
static void expectEq(const char * key, const A & actual, const B & expected, const std::string & what) {
	vf::check(actual == expected, key, std::string(key) + " of " + what + " gave " + show(actual) + ", expected " + show(expected));
}

// ------------------------------------------------------------------ reference definitions

static bool refSpace(char32_t c) { // general category Z
	return c == 0x20 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
}
static U32 refTrim(const U32 & s, bool l, bool r) {
	size_t a = 0, b = s.size();
	while (l && a < b && refSpace(s[a])) ++a;
	while (r && b > a && refSpace(s[b - 1])) --b;
	return s.substr(a, b - a);
}
static bool at(const U32 & s, size_t m, const U32 & t) { return m + t.size() <= s.size() && std::equal(t.begin(), t.end(), s.begin() + (long) m); }
static std::vector<U32> refSplit(const U32 & s, const U32 & d, bool compress) {
	if (d.empty()) return { s };
	std::vector<U32> out;
	U32 cur;
	auto emit = [&] { if (!compress || !cur.empty()) out.push_back(cur); cur.clear(); };
	for (size_t m = 0; m < s.size();) {
		if (at(s, m, d)) { emit(); m += d.size(); } else cur += s[m++];
	}
	emit();
	return out;
}
static U32 refReplace(const U32 & s, const U32 & d, const U32 & by, size_t & n) {
	n = 0;
	if (d.empty()) return s;
	U32 out;
	for (size_t m = 0; m < s.size();) {
		if (at(s, m, d)) { out += by; m += d.size(); ++n; } else out += s[m++];
	}
	return out;
}
static U32 refMap(const U32 & s, bool up) { U32 o; for (auto c : s) o += (char32_t) (up ? u_toupper((UChar32) c) : u_tolower((UChar32) c)); return o; }

static U32 word(vf::Rng & r, int max) {
	U32 s;
	const bool small = r.chance(1, 2); // small alphabet: many matches and overlaps
	for (int n = (int) r.below((uint64_t) max + 1); n > 0; --n)
		s += small ? r.of<char32_t>({ 'a', 'b', ' ', 0xE9, 0x1F600, 0x3000, 'A', '\n', '\r', '\t' }) : r.chance(1, 6) ? r.of<char32_t>({ ' ', 0xA0, 0x3000, 0x2028, '\t' }) : uni::anyCodePoint(r);
	return s;
}
static U32 piece(vf::Rng & r, const U32 & s) { // something that may occur in s
	if (s.empty() || r.chance(1, 4)) return word(r, 3);
	size_t a = r.below(s.size()), n = 1 + r.below(3);
	U32 p = s.substr(a, n);
	if (r.chance(1, 6) && !p.empty()) p.back() = 'b';
	return p;
}

template <typename V, typename F> static std::vector<V> mapped(const std::vector<U32> & v, F f) { std::vector<V> o; for (auto & e : v) o.push_back(f(e)); return o; }
template <typename View> static auto owned(const std::vector<View> & v) {
	std::vector<std::basic_string<typename View::value_type>> o;
	for (auto & e : v) o.emplace_back(e);
	return o;
}

static void strings(int64_t c, vf::Rng & r) {
	const U32 s = word(r, r.chance(1, 8) ? 200 : 12), t = piece(r, s), w = word(r, 4);
	const std::string s8 = uni::encode(s), t8 = uni::encode(t), w8 = uni::encode(w);
	const uni::Exact se(s8), te(t8);
	const std::string_view sv = se, tv = te;
	const std::u32string_view s32 = s, t32 = t;
	const std::string what = show(s) + " with " + show(t);
	vf::distinct(vf::hashStr(s8 + "\x1" + t8, (uint64_t) c % 7));
	vf::count("texts");

	const bool starts = at(s, 0, t), ends = s.size() >= t.size() && at(s, s.size() - t.size(), t);
	expectEq("startsWith", S::startsWith(sv, tv), starts, what);
	expectEq("startsWith", S::startsWith(s32, t32), starts, what);
	expectEq("startsWith", S::startsWith(s8, t8), starts, what);
	expectEq("endsWith", S::endsWith(sv, tv), ends, what);
	expectEq("endsWith", S::endsWith(s32, t32), ends, what);
	expectEq("endsWith", S::endsWith(s8, t8), ends, what);
	const char32_t one = s.empty() || r.chance(1, 3) ? U'a' : r.chance(1, 2) ? s[0] : s.back();
	expectEq("startsWith-char", S::startsWith(s32, one), !s.empty() && s[0] == one, what);
	expectEq("endsWith-char", S::endsWith(s32, one), !s.empty() && s.back() == one, what);
	if (one < 128) {
		expectEq("startsWith-char", S::startsWith(sv, (char) one), !s.empty() && s[0] == one, what);
		expectEq("endsWith-char", S::endsWith(sv, (char) one), !s.empty() && s.back() == one, what);
	}
	size_t n;
	const U32 replaced = refReplace(s, t, w, n);
	const bool has = t.empty() || n > 0;
	if (has) vf::count("matches"); else vf::count("mismatches");
	expectEq("contains", S::contains(sv, tv), has, what);
	expectEq("contains", S::contains(s32, t32), has, what);
	expectEq("contains-char", S::contains(s32, one), s.find(one) != U32::npos, what);
	if (one < 128) expectEq("contains-char", S::contains(sv, (char) one), s.find(one) != U32::npos, what);
	if (!t.empty()) {
		expectEq("occurrences", S::occurrences(sv, tv), n, what);
		expectEq("occurrences", S::occurrences(s32, t32), n, what);
		size_t count = 777;
		expectEq("replaceAll", S::replaceAll(sv, tv, std::string_view(w8), &count), uni::encode(replaced), what + " by " + show(w));
		vf::check(count == n || count == 777 + n, "replaceAll-count", "replacing in " + what + " counted " + std::to_string(count) + ", expected " + std::to_string(n));
		expectEq("replaceAll", S::replaceAll(s32, t32, std::u32string_view(w)), replaced, what + " by " + show(w));
	} else {
		S::occurrences(sv, tv); // must terminate
		S::replaceAll(sv, tv, std::string_view(w8));
	}
	size_t last = U32::npos;
	for (size_t m = 0; m <= s.size(); ++m) if (at(s, m, t)) last = m;
	expectEq("lastIndexOf", S::lastIndexOf(s32, t32), last, what);
	expectEq("lastIndexOf", S::lastIndexOf(sv, tv), last == U32::npos ? last : uni::encode(s.substr(0, last)).size(), what);

	expectEq("codePointCount", S::codePointCount(sv), s.size(), what);
	expectEq("codePointCount", S::codePointCount(s32), s.size(), what);
	expectEq("toUpper", S::toUpper(s32), refMap(s, true), what);
	expectEq("toLower", S::toLower(s32), refMap(s, false), what);
	expectEq("toUpper", S::toUpper(sv), uni::encode(refMap(s, true)), what);
	expectEq("toLower", S::toLower(sv), uni::encode(refMap(s, false)), what);
	{
		U32 v = s;
		for (auto & e : v) if (r.chance(1, 2)) { char32_t x = (char32_t) u_toupper((UChar32) e); if (u_tolower((UChar32) x) == u_tolower((UChar32) e)) e = x; }
		if (r.chance(1, 3) && !v.empty()) v[r.below(v.size())] = 'q';
		const bool eq = refMap(s, false) == refMap(v, false);
		expectEq("equalsIgnoreCase", S::equalsIgnoreCase(s32, std::u32string_view(v)), eq, show(s) + " and " + show(v));
		const std::string v8 = uni::encode(v);
		expectEq("equalsIgnoreCase", S::equalsIgnoreCase(s8, v8), eq, show(s) + " and " + show(v));
		if (eq) vf::count("equal ignoring case");
	}
	const size_t extra = r.below(5);
	const char32_t padc = r.chance(1, 2) ? U'*' : uni::anyCodePoint(r);
	const unsigned width = (unsigned) r.below(s.size() + 8);
	{
		U32 e = s; e.append(extra, padc);
		expectEq("append", S::append(s8, padc, extra), uni::encode(e), what);
		expectEq("append", S::append(s, padc, extra), e, what);
		std::string a = s8; S::append(a, padc, extra);
		expectEq("append", a, uni::encode(e), what);
		U32 left(width > s.size() ? width - s.size() : 0, padc), right = s + left;
		left += s;
		expectEq("padLeft", S::padLeft(sv, width, padc), uni::encode(left), what + " to " + std::to_string(width));
		expectEq("padLeft", S::padLeft(s32, width, padc), left, what + " to " + std::to_string(width));
		expectEq("padRight", S::padRight(sv, width, padc), uni::encode(right), what + " to " + std::to_string(width));
		expectEq("padRight", S::padRight(s32, width, padc), right, what + " to " + std::to_string(width));
		if (padc < 128) {
			expectEq("append", S::append(sv, (char) padc, extra), uni::encode(e), what);
			expectEq("padLeft", S::padLeft(sv, width, (char) padc), uni::encode(left), what + " to " + std::to_string(width));
			expectEq("padRight", S::padRight(sv, width, (char) padc), uni::encode(right), what + " to " + std::to_string(width));
		}
	}
	for (int k = 1; k < 4; ++k) {
		const U32 e = refTrim(s, k & 1, k & 2);
		auto a8 = k == 3 ? S::trim(sv) : k == 1 ? S::trimLeft(sv) : S::trimRight(sv);
		auto a32 = k == 3 ? S::trim(s32) : k == 1 ? S::trimLeft(s32) : S::trimRight(s32);
		const char * key = k == 3 ? "trim" : k == 1 ? "trimLeft" : "trimRight";
		expectEq(key, std::string(a8), uni::encode(e), what);
		expectEq(key, U32(a32), e, what);
		vf::check(a8.data() >= sv.data() && a8.data() + a8.size() <= sv.data() + sv.size(), "trim-outside", "the view lies outside " + what);
		if (e.size() < s.size()) vf::count("trimmed");
	}
	{
		U32 e, tr = refTrim(s, true, true);
		for (size_t m = 0; m < tr.size(); ++m) {
			if (tr[m] == ' ' || tr[m] == '\t') { if (e.empty() || m == 0 || !(tr[m - 1] == ' ' || tr[m - 1] == '\t')) e += ' '; }
			else e += tr[m];
		}
		expectEq("simplify", S::simplify(sv), uni::encode(e), what);
	}
	for (bool compress : { true, false }) {
		auto e = refSplit(s, t, compress);
		auto as8 = mapped<std::string>(e, uni::encode);
		auto got = S::split(sv, tv, compress);
		for (auto & v : got) vf::check(v.data() >= sv.data() && v.data() + v.size() <= sv.data() + sv.size(), "split-outside", "an element lies outside " + what);
		expectEq("split", owned(got), as8, what + (compress ? " compressed" : ""));
		expectEq("split", owned(S::split(s32, t32, compress)), e, what + (compress ? " compressed" : ""));
		std::vector<U32> tr;
		for (auto & x : e) tr.push_back(refTrim(x, true, true));
		expectEq("splitAndTrim", owned(S::splitAndTrim(sv, tv, compress)), mapped<std::string>(tr, uni::encode), what);
		expectEq("splitAndTrim", owned(S::splitAndTrim(s32, t32, compress)), tr, what);
		if (e.size() > 1) vf::count("splits into several");
		// joining the parts again gives the text, when nothing was dropped
		if (!compress && !t.empty()) {
			expectEq("split-join", S::joinContainer(t8, as8), s8, what);
			expectEq("split-join", S::joinContainer(t, e), s, what);
		}
		// a regular expression of one literal
		if (!e.empty() && !s.empty()) {
			static const std::regex re("[ab]"), re2("ab|a");
			const bool first = r.chance(1, 2);
			std::vector<std::string> x, xd;
			std::string cur;
			bool any = false;
			for (size_t m = 0; m < s8.size();) {
				size_t len = 0;
				if (first) len = s8[m] == 'a' || s8[m] == 'b';
				else len = s8[m] == 'a' ? (m + 1 < s8.size() && s8[m + 1] == 'b' ? 2 : 1) : 0;
				if (!len) { cur += s8[m++]; continue; }
				any = true;
				if (!compress || !cur.empty()) { x.push_back(cur); xd.push_back(cur); }
				cur.clear();
				xd.push_back(s8.substr(m, len));
				m += len;
			}
			if (!any || !compress || !cur.empty()) { x.push_back(cur); xd.push_back(cur); }
			expectEq("split-regex", owned(S::split(sv, first ? re : re2, false, compress)), x, what);
			expectEq("split-regex", owned(S::split(sv, first ? re : re2, true, compress)), xd, what);
			expectEq("occurrences-regex", S::occurrences(sv, first ? re : re2), (size_t) std::count_if(s8.begin(), s8.end(), [&] (char ch) { return ch == 'a' || (first && ch == 'b'); }), what);
			std::string rep;
			for (size_t m = 0; m < s8.size();) {
				size_t len = first ? s8[m] == 'a' || s8[m] == 'b' : s8[m] == 'a' ? (m + 1 < s8.size() && s8[m + 1] == 'b' ? 2 : 1) : 0;
				if (len) { rep += w8; m += len; } else rep += s8[m++];
			}
			expectEq("replaceAll-regex", S::replaceAll(sv, first ? re : re2, w8), rep, what);
			expectEq("startsWithRegex", S::startsWithRegex(s8, re), s8[0] == 'a' || s8[0] == 'b', what);
			expectEq("matches", S::matches(s8, re), s8 == "a" || s8 == "b", what);
		}
	}
	{ // line lengths
		std::vector<size_t> lens, with;
		size_t start = 0;
		for (size_t m = 0; m < s8.size();) {
			const char a = s8[m], b = m + 1 < s8.size() ? s8[m + 1] : 'x';
			size_t len = (a == '\n' && b == '\r') || (a == '\r' && b == '\n') ? 2 : a == '\n' || a == '\r' ? 1 : 0;
			if (!len) { ++m; continue; }
			lens.push_back(m - start);
			m += len;
			start = m;
		}
		with = lens;
		if (start < s8.size()) with.push_back(s8.size() - start);
		expectEq("lineLengths", S::lineLengths(sv), with, what);
		expectEq("lineLengths", S::lineLengths(sv, false), lens, what);
		if (lens.size() > 1) vf::count("texts of several lines");
	}
	{ // joining of values and containers
		std::vector<int> v;
		std::list<U32> l;
		std::string e, pe;
		U32 le;
		for (int m = (int) r.below(5); m > 0; --m) {
			v.push_back((int) r.next());
			l.push_back(word(r, 3));
			if (v.size() > 1) { e += t8; le += t; }
			e += std::to_string(v.back());
			pe += t8 + std::to_string(v.back()) + w8;
			le += l.back();
		}
		expectEq("joinContainer", S::joinContainer(t8, v), e, what);
		expectEq("joinContainer", S::joinContainer(t, l), le, what);
		expectEq("prefixSuffixJoin", S::prefixSuffixJoin(v, t8, w8), pe, what);
		const int i = (int) r.next();
		const bool b = r.chance(1, 2);
		expectEq("join", S::join(t8, i, s8, b), std::to_string(i) + t8 + s8 + t8 + (b ? "true" : "false"), what);
		expectEq("join", S::join(t8, w8), w8, what);
		expectEq("toString-concatenation", ::toString(i, s8, b, w8), std::to_string(i) + s8 + (b ? "true" : "false") + w8, what);
	}
	if (c % 5000 == 0) vf::sample(what + " split into " + show(refSplit(s, t, false)));
}

// Malformed text: nothing is read outside of it, everything returns.
static void hostileStrings(int64_t, vf::Rng & r) {
	const std::string s = uni::hostile(r, 12), t = uni::hostile(r, 3);
	if (uni::valid(s)) vf::count("valid hostile texts"); else vf::count("malformed texts");
	vf::distinct(s + t);
	const uni::Exact se(s), te(t);
	const std::string_view sv = se, tv = te;
	auto inside = [&] (const char * fn, std::string_view v) {
		vf::check(v.data() >= sv.data() && v.data() + v.size() <= sv.data() + sv.size(), "hostile-outside", std::string(fn) + " of " + show(s) + " lies outside of it");
	};
	// bytes are compared as bytes
	vf::check(S::startsWith(sv, tv) == (s.compare(0, t.size(), t) == 0 && s.size() >= t.size()), "hostile-startsWith", show(s) + " " + show(t));
	vf::check(S::endsWith(sv, tv) == (s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0), "hostile-endsWith", show(s) + " " + show(t));
	vf::check(S::contains(sv, tv) == (s.find(t) != std::string::npos), "hostile-contains", show(s) + " " + show(t));
	S::occurrences(sv, tv);
	S::replaceAll(sv, tv, tv);
	for (bool compress : { false, true }) for (auto v : S::split(sv, tv, compress)) inside("split", v);
	for (auto v : S::splitAndTrim(sv, tv)) inside("splitAndTrim", v);
	inside("trim", S::trim(sv));
	inside("trimLeft", S::trimLeft(sv));
	inside("trimRight", S::trimRight(sv));
	const std::string up = S::toUpper(sv), low = S::toLower(sv);
	if (uni::valid(s)) vf::check(uni::valid(up) && uni::valid(low), "case-invalid", "changing the case of " + show(s) + " gave malformed text");
	S::simplify(sv);
	S::lineLengths(sv);
	S::equalsIgnoreCase(s, t);
}

static vf::Mode m1("strings", strings), m2("hostile", hostileStrings);

// ------------------------------------------------------------------ values and text

static U32 widen(const std::string & s) { U32 o; for (char c : s) o += (char32_t) (unsigned char) c; return o; }

template <typename T> static bool parse(int enc, const std::string & s, T & v, std::string & error) {
	error.clear();
	try {
		uni::Exact e(s);
		if (enc == 0) ::fromString(v, e.view());
		else if (enc == 1) { std::u16string w = uni::encode16(uni::decode(s)); ::fromString16(v, w); }
		else { U32 w = uni::decode(s); ::fromString32(v, w); }
		return true;
	} catch (const Exception::ConversionException & ex) {
		return false;
	} catch (const std::exception & ex) {
		error = ex.what();
	} catch (...) {
		error = "unknown exception";
	}
	return false;
}
template <typename T> static std::string print(int enc, T v) {
	if (enc == 0) return ::toString(v);
	if (enc == 1) {
		std::u16string w = ::toString16(v);
		std::string s;
		for (auto c : w) s += c < 128 ? (char) c : '?';
		return s;
	}
	U32 w = ::toString32(v);
	std::string s;
	for (auto c : w) s += c < 128 ? (char) c : '?';
	return s;
}
static std::string dec(__int128 v, int base = 10) {
	if (v == 0) return "0";
	const bool neg = v < 0;
	unsigned __int128 u = neg ? (unsigned __int128) (-(v + 1)) + 1 : (unsigned __int128) v;
	std::string s;
	while (u) { s.insert(s.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[(int) (u % (unsigned) base)]); u /= (unsigned) base; }
	return neg ? "-" + s : s;
}

template <typename T> static void integer(const char * name, vf::Rng & r) {
	using L = std::numeric_limits<T>;
	const __int128 lo = (__int128) L::min(), hi = (__int128) L::max();
	__int128 v;
	switch (r.below(4)) {
		case 0: v = (r.chance(1, 2) ? lo : hi) + r.range(-3, 3); break;
		case 1: v = r.range(-130, 300); break;
		case 2: v = (__int128) (int64_t) r.next() * (r.chance(1, 2) ? 1 : (int64_t) r.below(100000)); break;
		default: v = (__int128) (T) r.next(); break;
	}
	if (r.chance(1, 6)) v >>= r.below(60);
	const bool fits = v >= lo && v <= hi;
	const int enc = (int) r.below(3);
	T out = 99;
	std::string err;
	std::string text = dec(v);
	if (r.chance(1, 5)) { size_t z = 1 + r.below(30); text.insert(text[0] == '-' ? 1 : 0, std::string(z, '0')); }
	vf::distinct(std::string(name) + text + (char) ('0' + enc));
	const std::string what = std::string(name) + " from " + show(text) + " in encoding " + std::to_string(enc);
	const bool ok = parse(enc, text, out, err);
	vf::check(err.empty(), "integer-exception", what + " threw " + err);
	if (fits) {
		vf::count("integers in range");
		vf::check(ok, "integer-refused", what + " was refused");
		vf::check(!ok || (__int128) out == v, "integer-value", what + " gave " + dec((__int128) out));
		expectEq("integer-text", print<T>(enc, (T) v), dec(v), std::string(name));
	} else {
		vf::count("integers out of range");
		vf::check(!ok, "integer-range", what + " is out of range but gave " + dec((__int128) out));
	}
	// another base
	if (enc == 0) {
		const int base = (int) r.of<int>({ 2, 8, 10, 16, 36, 3, 7 });
		std::string bt = dec(v, base);
		if (r.chance(1, 2)) for (auto & ch : bt) ch = (char) toupper(ch);
		uni::Exact e(bt);
		T o2 = 98;
		bool ok2 = true;
		try { ::fromString(o2, e.view(), base); } catch (const Exception::ConversionException &) { ok2 = false; }
		const std::string w2 = std::string(name) + " from " + show(bt) + " in base " + std::to_string(base);
		vf::check(ok2 == fits, fits ? "integer-refused" : "integer-range", w2 + (fits ? " was refused" : " is out of range but gave " + dec((__int128) o2)));
		vf::check(!ok2 || !fits || (__int128) o2 == v, "integer-value", w2 + " gave " + dec((__int128) o2));
		vf::count("other bases");
	}
	// not a number
	std::string bad = dec(fits ? v : 5);
	switch (r.below(9)) {
		case 0: bad = ""; break;
		case 1: bad += r.of<char>({ 'x', 'g', '.', '-', '+', ',', '_', '#' }); break;
		case 2: bad += ' '; break;
		case 3: bad = r.of<const char *>({ "-", "+", "--1", "+-1", "-+1", "x", "abc", "true", ".", "e5", "- 1" }); break;
		case 4: bad += std::string("\0", 1); break;
		case 5: bad += std::string("\0", 1) + "3"; break;
		case 6: bad.insert(bad.size() > 1 ? 1 + r.below(bad.size() - 1) : 1, r.chance(1, 2) ? " 1" : ".1"); break;
		case 7: bad += "e1"; break;
		default: bad = "0x1G"; break;
	}
	T o3 = 97;
	const bool ok3 = parse(enc, bad, o3, err);
	vf::check(err.empty(), "integer-exception", std::string(name) + " from " + show(bad) + " threw " + err);
	vf::check(!ok3, "integer-garbage", std::string(name) + " from " + show(bad) + " in encoding " + std::to_string(enc) + " gave " + dec((__int128) o3));
	vf::count("texts that are no numbers");
}

template <typename T> static void floating(const char * name, vf::Rng & r) {
	using L = std::numeric_limits<T>;
	T v;
	switch (r.below(6)) {
		case 0: v = r.of<T>({ (T) 0, L::min(), L::max(), L::denorm_min(), L::epsilon(), (T) 1, (T) 0.1, L::lowest(), (T) 1 / 3, (T) -0.0 }); break;
		case 1: v = std::ldexp((T) (int64_t) r.next(), (int) r.range(L::min_exponent - 80, L::max_exponent - 70)); break;
		case 2: v = (T) r.range(-1000, 1000) / (T) r.of<int>({ 1, 10, 100, 3 }); break;
		case 3: v = std::nextafter((T) r.range(-5, 5), (T) r.range(-9, 9)); break;
		case 4: v = L::denorm_min() * (T) r.below(1000); break;
		default: v = (T) (int64_t) r.next(); break;
	}
	if (!std::isfinite(v)) v = 1;
	const int enc = (int) r.below(3);
	const std::string text = print<T>(enc, v);
	std::string err;
	T out = 77;
	const bool ok = parse(enc, text, out, err);
	vf::distinct(std::string(name) + text);
	vf::check(err.empty() && ok && out == v && std::signbit(out) == std::signbit(v), "floating-roundtrip", std::string(name) + " printed as " + show(text) + (ok ? " came back as another value" : " was refused ") + err);
	vf::count("floating point values");
	std::string bad;
	switch (r.below(7)) {
		case 0: bad = ""; break;
		case 1: bad = text + r.of<const char *>({ "x", " ", ",", "e", "..", "+" }); break;
		case 2: bad = r.of<const char *>({ "e5", ".", "-", "abc", "1.2.3", "--1", "1e", "1e+" }); break;
		case 3: bad = "1e" + std::to_string(L::max_exponent10 + 1 + (int) r.below(2000)); break;
		case 4: bad = "-1" + std::string((size_t) L::max_exponent10 + 1 + r.below(50), '0'); break;
		case 5: bad = text + std::string("\0", 1); break;
		default: bad = text + std::string("\0", 1) + "1"; break;
	}
	T o2 = 76;
	const bool ok2 = parse(enc, bad, o2, err);
	vf::check(err.empty(), "floating-exception", std::string(name) + " from " + show(bad) + " threw " + err);
	vf::check(!ok2, "floating-garbage", std::string(name) + " from " + show(bad.substr(0, 60)) + " in encoding " + std::to_string(enc) + " gave a value");
	vf::count("texts that are no numbers");
}

static void values(int64_t c, vf::Rng & r) {
	integer<signed char>("signed char", r);
	integer<unsigned char>("unsigned char", r);
	integer<short>("short", r);
	integer<unsigned short>("unsigned short", r);
	integer<int>("int", r);
	integer<unsigned int>("unsigned int", r);
	integer<long>("long", r);
	integer<unsigned long>("unsigned long", r);
	integer<long long>("long long", r);
	integer<unsigned long long>("unsigned long long", r);
	floating<float>("float", r);
	floating<double>("double", r);
	floating<long double>("long double", r);
	std::string err;
	const int enc = (int) r.below(3);
	{ // bool
		const bool v = r.chance(1, 2);
		bool out = !v;
		std::string t = print<bool>(enc, v);
		expectEq("bool-text", t, std::string(v ? "true" : "false"), "bool");
		for (auto & ch : t) if (r.chance(1, 3)) ch = (char) toupper(ch);
		bool ok = parse(enc, t, out, err);
		vf::check(ok && out == v, "bool-roundtrip", show(t) + " gave " + (ok ? "the other value" : "a refusal ") + err);
		std::string bad = r.of<const char *>({ "", "0", "1", "yes", "tru", "truee", " true", "false ", "t", "falsetrue", "TRU E" });
		if (r.chance(1, 6)) bad = std::string("true\0", 5);
		ok = parse(enc, bad, out, err);
		vf::check(!ok && err.empty(), "bool-garbage", show(bad) + " was accepted as a bool " + err);
		vf::count("booleans");
	}
	{ // characters and strings
		char32_t cp = uni::anyCodePoint(r), out32 = 0;
		U32 one(1, cp);
		bool ok = parse(enc, uni::encode(one), out32, err);
		vf::check(ok && out32 == cp && err.empty(), "char32-roundtrip", "code point " + std::to_string((unsigned) cp) + " gave " + std::to_string((unsigned) out32) + " in encoding " + std::to_string(enc) + err);
		expectEq("char32-text", ::toString(cp), uni::encode(one), "char32_t");
		expectEq("char32-text", ::toString32(cp), one, "char32_t");
		vf::check(::toString16(cp) == uni::encode16(one), "char32-text", "UTF-16 of code point " + std::to_string((unsigned) cp));
		if (cp < 128) {
			char ch = 'x';
			ok = parse(enc, std::string(1, (char) cp), ch, err);
			vf::check(ok && ch == (char) cp, "char-roundtrip", "character " + std::to_string((unsigned) cp) + err);
			expectEq("char-text", ::toString((char) cp), std::string(1, (char) cp), "char");
			expectEq("char-text", ::toString32((char) cp), one, "char");
		} else if (cp > 255) {
			char ch = 'x';
			ok = parse(enc, uni::encode(one), ch, err);
			vf::check(!ok && err.empty(), "char-range", "code point " + std::to_string((unsigned) cp) + " was accepted as a char " + err);
		}
		char ch = 'x';
		ok = parse(enc, "", ch, err);
		vf::check(!ok && err.empty(), "char-garbage", "empty text accepted as a char");
		ok = parse(enc, "", out32, err);
		vf::check(!ok && err.empty(), "char-garbage", "empty text accepted as a char32_t");
		if (r.chance(1, 2)) {
			std::string bad;
			do bad = uni::hostile(r, 5); while (bad.empty());
			uint32_t first;
			const bool firstValid = uni::sequence(bad, 0, first) > 0;
			ok = parse(0, bad, out32, err);
			vf::check(ok == firstValid && err.empty() && (!ok || out32 == first), "char32-malformed", show(bad) + (ok ? " gave " + std::to_string((unsigned) out32) : " was refused") + err);
			vf::count(firstValid ? "first characters decoded" : "malformed characters refused");
		}
		U32 s = word(r, 10);
		const std::string s8 = uni::encode(s);
		const std::u16string s16 = uni::encode16(s);
		vf::check(::toString(s) == s8 && ::toString(s16) == s8 && ::toString(s8) == s8, "string-to-utf8", show(s));
		vf::check(::toString16(s) == s16 && ::toString16(s16) == s16 && ::toString16(s8) == s16, "string-to-utf16", show(s));
		vf::check(::toString32(s) == s && ::toString32(s16) == s && ::toString32(s8) == s, "string-to-utf32", show(s));
		std::string a; std::u16string b; U32 d;
		::fromString(a, s8); ::fromString(b, s8); ::fromString(d, s8);
		vf::check(a == s8 && b == s16 && d == s, "string-from-utf8", show(s));
		::fromString16(a, s16); ::fromString16(b, s16); ::fromString16(d, s16);
		vf::check(a == s8 && b == s16 && d == s, "string-from-utf16", show(s));
		::fromString32(a, s); ::fromString32(b, s); ::fromString32(d, s);
		vf::check(a == s8 && b == s16 && d == s, "string-from-utf32", show(s));
		vf::count("strings converted");
	}
	if (c % 3000 == 0) vf::sample("float " + ::toString(1.0f / 3) + ", double " + ::toString(1.0 / 3));
}
static vf::Mode m3("values", values);

// ------------------------------------------------------------------ characters

static void characters(int64_t block, vf::Rng &) { // 0x1000 code points per case
	for (char32_t c = (char32_t) block * 0x1000; c < (char32_t) (block + 1) * 0x1000; ++c) {
		const int8_t k = u_charType((UChar32) c);
		const uint32_t mask = U_MASK(k);
		auto is = [&] (const char * fn, bool got, bool want) {
			if (got != want) vf::violation(std::string("class-") + fn, std::string(fn) + " of code point " + std::to_string((unsigned) c) + " is " + (got ? "true" : "false"));
		};
		is("isLower", Character::isLower(c), mask & U_GC_LL_MASK);
		is("isUpper", Character::isUpper(c), mask & U_GC_LU_MASK);
		is("isDigit", Character::isDigit(c), mask & U_GC_ND_MASK);
		if (c < 128) is("isHexDigit", Character::isHexDigit(c), (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
		is("isOctalDigit", Character::isOctalDigit(c), c >= '0' && c <= '7');
		is("isBinaryDigit", Character::isBinaryDigit(c), c == '0' || c == '1');
		is("isAlpha", Character::isAlpha(c), mask & U_GC_L_MASK);
		is("isAlphaOrDecimal", Character::isAlphaOrDecimal(c), mask & (U_GC_L_MASK | U_GC_ND_MASK));
		is("isControlCharacter", Character::isControlCharacter(c), u_iscntrl((UChar32) c));
		is("isSpace", Character::isSpace(c), mask & U_GC_Z_MASK);
		is("isSpace", Character::isSpace(c), refSpace(c));
		is("isWhitespace", Character::isWhitespace(c), ((mask & U_GC_Z_MASK) && c != 0xA0 && c != 0x2007 && c != 0x202F) || (c >= 9 && c <= 13) || (c >= 0x1C && c <= 0x1F));
		is("isBlank", Character::isBlank(c), c == 9 || (mask & U_GC_ZS_MASK));
		is("isPrintable", Character::isPrintable(c), !(mask & U_GC_C_MASK));
		is("isPunctuation", Character::isPunctuation(c), mask & U_GC_P_MASK);
		is("isIdStart", Character::isIdStart(c), u_isIDStart((UChar32) c));
		is("isIdPart", Character::isIdPart(c), u_isIDPart((UChar32) c));
		is("isBreakableCharacter", Character::isBreakableCharacter(c), u_isWhitespace((UChar32) c) || c == '-');
		is("isInclusiveBreakableCharacter", Character::isInclusiveBreakableCharacter(c), c == '-');
		is("isValid", Character::isValid(c), c <= 0x10FFFF);
		is("toUpper", Character::toUpper(c) == (char32_t) u_toupper((UChar32) c), true);
		is("toLower", Character::toLower(c) == (char32_t) u_tolower((UChar32) c), true);
		if (c < 0x110000 && !(c >= 0xD800 && c < 0xE000)) {
			std::string e;
			uni::put(e, c);
			is("utf8ByteCount", Character::utf8ByteCount(c) == e.size(), true);
			std::string d = "a" + std::string(e.size(), 'x') + "z";
			int off = 1;
			Character::setUtf8AndAdvanceOffset(d, off, c);
			is("setUtf8AndAdvanceOffset", d == "a" + e + "z" && off == 1 + (int) e.size(), true);
			const int end = off;
			for (int safe = 0; safe < 2; ++safe) {
				off = 1;
				char32_t got = safe ? Character::getNextUtf8Safe(d, off) : Character::getNextUtf8(d, off);
				is(safe ? "getNextUtf8Safe" : "getNextUtf8", got == c && off == end, true);
				off = end;
				got = safe ? Character::getPreviousUtf8Safe(d, off) : Character::getPreviousUtf8(d, off);
				is(safe ? "getPreviousUtf8Safe" : "getPreviousUtf8", got == c && off == 1, true);
				off = 1;
				if (safe) Character::advanceUtf8Safe(d, off); else Character::advanceUtf8(d, off);
				is(safe ? "advanceUtf8Safe" : "advanceUtf8", off == end, true);
				if (safe) Character::retreatUtf8Safe(d, off); else Character::retreatUtf8(d, off);
				is(safe ? "retreatUtf8Safe" : "retreatUtf8", off == 1, true);
			}
			vf::count("code points coded");
		}
		vf::count("code points classified");
	}
	vf::distinct((uint64_t) block);
}

static void bytes(int64_t c, vf::Rng & r) {
	const std::string s = uni::hostile(r, 10);
	const uni::Exact e(s);
	vf::distinct(s);
	const int n = (int) s.size();
	std::vector<int> bounds;
	for (int off = 0; off < n;) {
		const int before = off;
		bounds.push_back(off);
		const int32_t got = (int32_t) Character::getNextUtf8Safe(e, off);
		uint32_t want = 0;
		const int len = uni::sequence(s, (size_t) before, want);
		if (len) vf::check(got == (int32_t) want && off == before + len, "safe-next", "at " + std::to_string(before) + " of " + show(s) + " gave " + std::to_string(got));
		else { vf::check(got < 0, "safe-next-malformed", "at " + std::to_string(before) + " of " + show(s) + " gave " + std::to_string(got)); vf::count("malformed sequences reported"); }
		if (!vf::check(off > before && off <= n, "safe-next-bounds", "offset " + std::to_string(off) + " after " + std::to_string(before) + " in " + show(s))) return;
		int adv = before;
		Character::advanceUtf8Safe(e, adv);
		vf::check(adv == off, "safe-advance", "advanced to " + std::to_string(adv) + ", reading went to " + std::to_string(off) + " in " + show(s));
	}
	size_t back = bounds.size();
	for (int off = n; off > 0;) {
		const int before = off;
		const int32_t got = (int32_t) Character::getPreviousUtf8Safe(e, off);
		if (!vf::check(off < before && off >= 0, "safe-previous-bounds", "offset " + std::to_string(off) + " before " + std::to_string(before) + " in " + show(s))) return;
		uint32_t want = 0;
		const int len = uni::sequence(s, (size_t) off, want);
		if (len == before - off) vf::check(got == (int32_t) want, "safe-previous", "before " + std::to_string(before) + " of " + show(s) + " gave " + std::to_string(got));
		else vf::check(got < 0, "safe-previous-malformed", "before " + std::to_string(before) + " of " + show(s) + " gave " + std::to_string(got));
		int ret = before;
		Character::retreatUtf8Safe(e, ret);
		vf::check(ret == off, "safe-retreat", "retreated to " + std::to_string(ret) + ", reading went to " + std::to_string(off) + " in " + show(s));
		if (uni::valid(s)) vf::check(back > 0 && bounds[--back] == off, "safe-previous-boundary", "not a boundary in " + show(s));
	}
	vf::count(uni::valid(s) ? "valid texts walked" : "malformed texts walked");
	if (c % 20000 == 0) vf::sample(show(s));
}
static vf::Mode m4("characters", characters), m5("bytes", bytes);
