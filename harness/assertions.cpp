// assertions.cpp : monitor of the assertions of the test framework (P25): an assertion
// throws an AssertionException exactly when its condition is false.
#include <vf.hpp>
#include <Balau/Testing/Assertions.hpp>
#include "unicode.hpp"
#include <cmath>
#include <limits>

using namespace Balau;
using namespace Balau::Testing;

struct Refused : std::runtime_error {
	int code;
	explicit Refused(int c) : std::runtime_error("refused " + std::to_string(c)), code(c) {}
};
struct Strictly : Refused { explicit Strictly(int c) : Refused(c) {} };
inline bool operator == (const Refused & a, const Refused & b) { return a.code == b.code; }
inline std::string toString(const Refused & e) { return e.what(); }
template <typename AllocatorT> inline Balau::U8String<AllocatorT> toString(const Refused & e) { return e.what(); }

struct Base { virtual ~Base() = default; };
struct Left : virtual Base {};
struct Right : virtual Base {};
struct Both : Left, Right {};

struct Point {
	int x, y;
	bool operator == (const Point & o) const { return x == o.x && y == o.y; }
};
inline std::string toString(const Point & p) { return "(" + std::to_string(p.x) + "\n" + std::string((size_t) (p.y & 7), '\t') + std::to_string(p.y) + ")"; }
template <typename AllocatorT> inline Balau::U8String<AllocatorT> toString(const Point & p) { return toString(p).c_str(); }

// Calls the assertion in one of its forms and compares what it does with the truth.
// F: void (int form, const std::string & message), forms 0..3 with and without location and message; 4..7 the same without rendering.
template <typename F> static void judge(vf::Rng & r, const std::string & what, bool truth, bool np, F f) {
	const int form = (int) r.below(np ? 8 : 4);
	std::string message;
	for (uint64_t n = r.below(20); n; --n) message += r.chance(1, 10) ? "\n" : r.chance(1, 10) ? "%s" : std::string(1, (char) r.range(32, 126));
	vf::count("assertions");
	vf::count(truth ? "assertions that hold" : "assertions that do not hold");
	vf::distinct(what.substr(0, what.find(' ')) + (truth ? "+" : "-") + std::to_string(form));
	try {
		f(form, message);
		vf::check(truth, "passed", what + " does not hold, but its assertion did (form " + std::to_string(form) + ")");
	} catch (const Exception::AssertionException & e) {
		if (!vf::check(!truth, "failed", what + " holds, but its assertion failed (form " + std::to_string(form) + ") with " + vf::show(e.message))) return;
		const bool withMessage = form & 1, withLocation = form & 2;
		vf::check(!withMessage || e.message.find(message) != std::string::npos, "message", "the text " + vf::show(e.message) + " of a failed assertion lacks the given message " + vf::show(message));
		vf::check(!withLocation || e.message.find("assertions.cpp") != std::string::npos, "location", "the text " + vf::show(e.message) + " of a failed assertion lacks its location");
		vf::check(form < 4 || e.message.size() <= message.size() + (withLocation ? 300 : 40), "rendered", "a failed assertion without rendering has the text " + vf::show(e.message));
	} catch (const std::exception & e) {
		vf::violation("exception", "the assertion of " + what + " threw " + boost::core::demangle(typeid(e).name()) + ": " + e.what());
	}
}

#define FORMS(ACTUAL, EXPECTED) \
	switch (form) { \
		case 0: assertThat(ACTUAL, EXPECTED); break; \
		case 1: assertThat(message, ACTUAL, EXPECTED); break; \
		case 2: AssertThat(ACTUAL, EXPECTED); break; \
		case 3: AssertThat(message, ACTUAL, EXPECTED); break;
#define FORMS_NP(ACTUAL, EXPECTED) \
		case 4: assertThatNP(ACTUAL, EXPECTED); break; \
		case 5: assertThatNP(message, ACTUAL, EXPECTED); break; \
		case 6: AssertThatNP(ACTUAL, EXPECTED); break; \
		default: AssertThatNP(message, ACTUAL, EXPECTED); break;
#define ASSERTION(WHAT, TRUTH, ACTUAL, EXPECTED) \
	judge(r, WHAT, TRUTH, true, [&] (int form, const std::string & message) { FORMS(ACTUAL, EXPECTED) FORMS_NP(ACTUAL, EXPECTED) } })
#define THROWING(WHAT, TRUTH, FUNCTION, EXPECTED) \
	judge(r, WHAT, TRUTH, false, [&] (int form, const std::string & message) { FORMS(FUNCTION, EXPECTED) } })

template <typename T> static std::string text(const T & v) {
	using ::toString;
	return vf::show(toString(v), 60);
}

template <typename T> static void comparing(vf::Rng & r, const std::string & type, const T & a, const T & b) {
	const std::string w = " of " + type + " " + text(a) + " and " + text(b);
	switch (r.below(6)) {
		case 0: ASSERTION("is" + w, a == b, a, is(b)); break;
		case 1: ASSERTION("isNot" + w, !(a == b), a, isNot(b)); break;
		case 2: ASSERTION("isGreaterThan" + w, a > b, a, isGreaterThan(b)); break;
		case 3: ASSERTION("isGreaterThanOrEqualTo" + w, a >= b, a, isGreaterThanOrEqualTo(b)); break;
		case 4: ASSERTION("isLessThan" + w, a < b, a, isLessThan(b)); break;
		default: ASSERTION("isLessThanOrEqualTo" + w, a <= b, a, isLessThanOrEqualTo(b)); break;
	}
}
template <typename T> static void same(vf::Rng & r, const std::string & type, const T & a, const T & b) {
	const std::string w = " of " + type;
	if (r.chance(1, 2)) ASSERTION("is" + w, a == b, a, is(b));
	else ASSERTION("isNot" + w, !(a == b), a, isNot(b));
}

template <typename T> static T number(vf::Rng & r) {
	using L = std::numeric_limits<T>;
	switch (r.below(4)) {
		case 0: return (T) r.range(-3, 3);
		case 1: return r.of({ L::min(), L::max(), (T) 0, (T) (L::max() / 2), (T) (L::min() + 1), (T) (L::max() - 1) });
		case 2: return (T) r.range(-300, 300);
		default: return (T) r.next();
	}
}
template <typename T> static void integers(vf::Rng & r, const std::string & type) {
	const T a = number<T>(r), b = r.chance(1, 3) ? a : number<T>(r);
	if (r.chance(2, 3)) { comparing(r, type, a, b); return; }
	T d = number<T>(r);
	if (d < 0 && d != std::numeric_limits<T>::min()) d = (T) -d;
	if (d < 0) d = 1;
	T near = a;
	if (r.chance(1, 2)) { // exactly at, or one beyond, the limit
		const __int128 v = (__int128) a + (r.chance(1, 2) ? 1 : -1) * ((__int128) d + (int) r.below(3) - 1);
		if (v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max()) near = (T) v;
	} else near = b;
	const __int128 difference = (__int128) a - near;
	ASSERTION("isAlmostEqual of " + type + " " + text(near) + ", " + text(a) + " and " + text(d), (difference < 0 ? -difference : difference) <= (__int128) d, near, isAlmostEqual(a, d));
}
template <typename T> static T real(vf::Rng & r) {
	using L = std::numeric_limits<T>;
	switch (r.below(5)) {
		case 0: return (T) r.range(-3, 3);
		case 1: return r.of({ L::quiet_NaN(), L::infinity(), -L::infinity(), (T) 0.0, (T) -0.0, L::max(), L::lowest(), L::min(), L::denorm_min() });
		case 2: return (T) ((double) r.range(-1000, 1000) / 8);
		default: return (T) std::ldexp((double) (int64_t) r.next(), (int) r.range(-90, 20));
	}
}
template <typename T> static void reals(vf::Rng & r, const std::string & type) {
	const T a = real<T>(r), b = r.chance(1, 3) ? a : real<T>(r);
	if (r.chance(2, 3)) { comparing(r, type, a, b); return; }
	// Values that are represented exactly, with their sums.
	const T e = (T) ((double) r.range(-100000, 100000) / 8), d = (T) ((double) r.range(0, 100) / 8);
	const T v = r.chance(1, 2) ? (T) (e + (r.chance(1, 2) ? d : -d) + (T) r.range(-1, 1) / 8) : (T) ((double) r.range(-100000, 100000) / 8);
	if (r.chance(1, 12)) {
		const T nan = std::numeric_limits<T>::quiet_NaN();
		ASSERTION("isAlmostEqual of NaN", false, nan, isAlmostEqual(e, d));
		return;
	}
	ASSERTION("isAlmostEqual of " + type + " " + text(v) + ", " + text(e) + " and " + text(d), std::fabs((double) v - (double) e) <= (double) d, v, isAlmostEqual(e, d));
}

static std::u32string characters(vf::Rng & r, size_t most) {
	std::u32string s;
	for (uint64_t n = r.below(most + 1); n; --n) {
		switch (r.below(8)) {
			case 0: s += U'\n'; break;
			case 1: s += r.of({ U'\r', U'\t', U' ' }); break;
			case 2: s += r.of({ U'é', U'中', (char32_t) 0x1f600, (char32_t) 0x10ffff }); break;
			default: s += (char32_t) r.range('a', 'c'); break;
		}
	}
	return s;
}
static std::string utf8(const std::u32string & s) { std::string o; for (char32_t c : s) uni::put(o, c); return o; }

template <typename S> static bool has(const S & a, const S & e) { return a.find(e) != S::npos; }
template <typename S> static bool begins(const S & a, const S & e) { return a.size() >= e.size() && std::equal(e.begin(), e.end(), a.begin()); }
template <typename S> static bool finishes(const S & a, const S & e) { return a.size() >= e.size() && std::equal(e.rbegin(), e.rend(), a.rbegin()); }

template <typename S> static void strings(vf::Rng & r, const std::string & type, const S & a, const S & part, const S & other) {
	const S b = r.chance(1, 3) ? a : other;
	const S e = r.chance(1, 2) ? part : b;
	const std::string w = " of " + type + " " + text(a) + " and " + text(e);
	switch (r.below(5)) {
		case 0: comparing(r, type, a, b); break;
		case 1: ASSERTION("startsWith" + w, begins(a, e), a, startsWith(e)); break;
		case 2: ASSERTION("endsWith" + w, finishes(a, e), a, endsWith(e)); break;
		case 3: ASSERTION("contains" + w, has(a, e), a, contains(e)); break;
		default: ASSERTION("doesNotContain" + w, !has(a, e), a, doesNotContain(e)); break;
	}
}

template <typename V, typename F> static void vectors(vf::Rng & r, const std::string & type, F element) {
	V a, b;
	for (uint64_t n = r.below(6); n; --n) a.push_back(element());
	switch (r.below(4)) {
		case 0: b = a; break;
		case 1: b.assign(a.begin(), a.begin() + (ptrdiff_t) r.below(a.size() + 1)); break;
		case 2: b = a; if (!b.empty()) b[r.below(b.size())] = element(); break;
		default: for (uint64_t n = r.below(6); n; --n) b.push_back(element());
	}
	const std::string w = " of " + type + " with " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " elements";
	if (r.chance(1, 2)) ASSERTION("startsWith" + w, begins(a, b), a, startsWith(b));
	else same(r, type, a, b);
}

static void throwing(vf::Rng & r) {
	const int kind = (int) r.below(6), code = (int) r.below(3), wanted = (int) r.below(3);
	const auto function = [kind, code] () {
		switch (kind) {
			case 0: return;
			case 1: case 2: throw Refused(code);
			case 3: throw Strictly(code);
			case 4: throw std::logic_error("different");
			default: assertFail("an assertion within");
		}
	};
	const bool type = kind >= 1 && kind <= 3;
	const std::string w = " of a function of kind " + std::to_string(kind) + " with " + std::to_string(code) + ", " + std::to_string(wanted) + " wanted";
	switch (r.below(7)) {
		case 0: THROWING("throws-type" + w, type, function, throws<Refused>()); break;
		case 1: THROWING("throws-subtype" + w, kind == 3, function, throws<Strictly>()); break;
		case 2: THROWING("throws-any" + w, kind != 0, function, throws<std::exception>()); break;
		case 3: { const Refused e(wanted); THROWING("throws-equal" + w, type && code == wanted, function, throws(e)); break; }
		case 4: {
			const std::function<bool (const Refused &)> predicate = [wanted] (const Refused & e) { return e.code == wanted; };
			THROWING("throws-predicate" + w, type && code == wanted, function, throws<Refused>(predicate));
			break;
		}
		case 5: {
			const Refused e(wanted);
			const auto same = [] (const Refused & actual, const Refused & expected) { return actual.code <= expected.code; };
			THROWING("throws-function" + w, type && code <= wanted, function, throws(e, same));
			break;
		}
		default: { // an exception which is no standard exception passes through
			const auto f = [] () { throw 7; };
			try { assertThat("x", f, throws<Refused>()); vf::violation("passed", "an assertion of an exception passed although an int was thrown"); }
			catch (int) { vf::count("other objects thrown"); }
			catch (const Exception::AssertionException &) { vf::count("other objects thrown"); }
			break;
		}
	}
}

static void types(vf::Rng & r) {
	static Base base; static Left left; static Right right; static Both both;
	Base * all[] { &base, &left, &right, &both };
	const size_t n = r.below(4);
	const Base & b = *all[n];
	const std::string w = " of object " + std::to_string(n);
	switch (r.below(4)) {
		case 0: ASSERTION("isA-Base" + w, true, b, isA<Base>()); break;
		case 1: ASSERTION("isA-Left" + w, n == 1 || n == 3, b, isA<Left>()); break;
		case 2: ASSERTION("isA-Right" + w, n == 2 || n == 3, b, isA<Right>()); break;
		default: ASSERTION("isA-Both" + w, n == 3, b, isA<Both>()); break;
	}
}

static vf::Mode mAssertions("assertions", [] (int64_t, vf::Rng & r) {
	switch (r.below(12)) {
		case 0: integers<int>(r, "int"); break;
		case 1: integers<unsigned>(r, "unsigned"); break;
		case 2: r.chance(1, 2) ? integers<long long>(r, "long-long") : integers<unsigned long long>(r, "unsigned-long-long"); break;
		case 3: r.chance(1, 2) ? integers<short>(r, "short") : integers<unsigned short>(r, "unsigned-short"); break;
		case 4: r.chance(1, 2) ? reals<double>(r, "double") : reals<float>(r, "float"); break;
		case 5: case 6: {
			std::u32string a = characters(r, 12), o = characters(r, 12);
			if (r.chance(1, 200)) { a = std::u32string(r.below(300000), U'x') + a; vf::count("long texts"); }
			const size_t from = r.chance(1, 3) ? 0 : r.below(a.size() + 1);
			const std::u32string part = a.substr(from, r.chance(1, 3) ? std::u32string::npos : r.below(5));
			if (r.chance(2, 3)) strings(r, "string", utf8(a), utf8(part), utf8(o));
			else strings(r, "u32string", a, part, o);
			break;
		}
		case 7: switch (r.below(3)) {
			case 0: vectors<std::vector<int>>(r, "vector-int", [&] { return (int) r.below(3); }); break;
			case 1: vectors<std::vector<double>>(r, "vector-double", [&] { return r.of({ 0.0, -0.0, 1.0, 2.5 }); }); break;
			default: vectors<std::vector<std::string>>(r, "vector-string", [&] { return r.chance(1, 3) ? std::string(40, (char) r.range('a', 'b')) : std::string(r.below(3), 'z'); }); break;
		} break;
		case 8: switch (r.below(4)) {
			case 0: { std::list<int> a, b; for (uint64_t n = r.below(4); n; --n) { a.push_back((int) r.below(2)); } if (r.chance(1, 2)) b = a; else for (uint64_t n = r.below(4); n; --n) b.push_back((int) r.below(2)); same(r, "list", a, b); break; }
			case 1: { std::set<std::string> a, b; for (uint64_t n = r.below(4); n; --n) { a.insert(utf8(characters(r, 2))); } if (r.chance(1, 2)) b = a; else for (uint64_t n = r.below(4); n; --n) b.insert(utf8(characters(r, 2))); same(r, "set", a, b); break; }
			case 2: { const Point a { (int) r.below(3), (int) r.below(3) }, b { (int) r.below(3), (int) r.below(3) }; same(r, "Point", a, b); break; }
			default: {
				int v = 1; int * p = r.chance(1, 2) ? &v : nullptr;
				judge(r, "isNotNull", p != nullptr, true, [&] (int form, const std::string & message) {
					switch (form & 3) { case 0: assertThatNP(p, isNotNull()); break; case 1: assertThatNP(message, p, isNotNull()); break; case 2: AssertThatNP(p, isNotNull()); break; default: AssertThatNP(message, p, isNotNull()); }
				});
			}
		} break;
		case 9: case 10: throwing(r); break;
		default:
			if (r.chance(2, 3)) types(r);
			else judge(r, "assertFail", false, false, [&] (int form, const std::string & message) {
				switch (form) { case 0: assertFail(); break; case 1: assertFail(message); break; case 2: AssertFail(""); break; default: AssertFail(message); }
			});
	}
});
