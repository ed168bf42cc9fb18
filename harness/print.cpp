// print.cpp : monitors of pretty printed values, dates and durations (P29).
#include <vf.hpp>
#include <Balau/Util/PrettyPrint.hpp>
#include <cmath>
#include <limits>
#include <ctime>

using namespace Balau::Util;

static const char * prefixNames[] = { "a", "f", "p", "n", "\xce\xbc", "m", "", "k", "M", "G", "T", "P", "E" };

// A printed number: sign, digits, optional fraction. Returns the rest of the text.
struct Number { bool ok = false, negative = false; long double value = 0; size_t decimals = 0; bool point = false; std::string rest; };
static Number number(const std::string & s) {
	Number n;
	size_t m = 0;
	if (m < s.size() && s[m] == '-') { n.negative = true; ++m; }
	const size_t a = m;
	while (m < s.size() && isdigit((unsigned char) s[m])) ++m;
	if (m == a) return n;
	if (m < s.size() && s[m] == '.') {
		n.point = true;
		const size_t d = ++m;
		while (m < s.size() && isdigit((unsigned char) s[m])) ++m;
		n.decimals = m - d;
	}
	n.value = strtold(s.substr(a, m - a).c_str(), nullptr);
	n.rest = s.substr(m);
	n.ok = true;
	return n;
}
static std::string num(long double v) {
	char b[80];
	snprintf(b, sizeof b, "%.22Lg", v);
	return b;
}

// Is the text the value with a prefix, to the given decimal places?
static void prefixed(const std::string & text, long double v, long double base, size_t dp, const char * unit, long double epsilon, const std::string & what) {
	vf::count("prefixed values");
	if (!std::isfinite(v)) {
		vf::check(text.find("inf") != std::string::npos || text.find("nan") != std::string::npos, "prefix", what + " of " + num(v) + " is " + vf::show(text));
		vf::count("non-finite values");
		return;
	}
	const std::string context = what + " of " + num(v) + " to " + std::to_string(dp) + " places is " + vf::show(text);
	Number n = number(text);
	const std::string u = unit;
	if (!vf::check(n.ok && n.rest.size() >= u.size() && n.rest.compare(n.rest.size() - u.size(), u.size(), u) == 0, "prefix", context)) return;
	const std::string p = n.rest.substr(0, n.rest.size() - u.size());
	int index = -1;
	for (int m = 0; m < 13; ++m) if (p == prefixNames[m]) index = m;
	if (!vf::check(index >= 0, "prefix", context)) return;
	if (!vf::check(n.decimals == dp && n.point == (dp != 0), "places", context)) return;
	const int power = index - 6;
	if (v == 0) { vf::check(power == 0 && n.value == 0, "zero", context); vf::count("zeros"); return; }
	const long double scale = powl(base, (long double) power);
	const long double exact = fabsl(v) / scale;
	const long double unitInLast = powl(10.0L, -(long double) dp);
	vf::check(n.negative == (v < 0), "sign", context);
	vf::check(fabsl(n.value - exact) <= 0.5L * unitInLast * (1 + 1e-9L) + exact * 1e-17L, "value", context);
	vf::check(power == -6 || exact >= 1 - epsilon, "prefix-choice", context);
	vf::check(power == 6 || exact <= base * (1 + epsilon), "prefix-choice", context);
}

template <typename T> static T someFloat(vf::Rng & r) {
	switch (r.below(12)) {
		case 0: return r.of<T>({ (T) 0, (T) -0.0, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(),
			std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min() });
		case 1: case 2: { // next to a power of the base
			T v = (T) powl(r.chance(1, 2) ? 1000.0L : 1024.0L, (long double) r.range(-7, 7));
			for (uint64_t n = r.below(3); n; --n) v = std::nextafter(v, r.chance(1, 2) ? (T) 0 : std::numeric_limits<T>::infinity());
			return r.chance(1, 2) ? v : -v;
		}
		case 3: return (T) r.range(-3000, 3000);
		default: {
			const long double m = 1 + (long double) r.below(1u << 30) / (1u << 30);
			return (T) ((r.chance(1, 3) ? -m : m) * powl(10.0L, (long double) r.range(-22, 22)));
		}
	}
}
template <typename T> static T someInt(vf::Rng & r) {
	switch (r.below(5)) {
		case 0: return r.of<T>({ (T) 0, (T) 1, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), (T) 999, (T) 1000, (T) 1001, (T) 1023, (T) 1024, (T) 1025, (T) -1 });
		case 1: { // next to a power
			const unsigned __int128 b = r.chance(1, 2) ? 1000 : 1024;
			unsigned __int128 v = 1;
			for (uint64_t n = r.below(7); n; --n) v *= b;
			return (T) ((T) v + (T) r.range(-1, 1));
		}
		default: return (T) (r.next() >> r.below(64));
	}
}
template <typename T> static void prefixes(T v, vf::Rng & r) {
	const size_t dp = r.chance(1, 2) ? r.below(4) : r.below(13);
	const long double epsilon = std::is_same<T, float>::value ? 1e-5L : 1e-12L;
	prefixed(PrettyPrint::metricPrefix(v, dp), (long double) v, 1000, dp, "", epsilon, "metricPrefix");
	prefixed(PrettyPrint::binaryPrefix(v, dp), (long double) v, 1024, dp, "", epsilon, "binaryPrefix");
	vf::distinct(vf::mix(vf::hashBytes(&v, sizeof(T) > 8 ? 10 : sizeof(T)), dp));
}
template <typename T> static void notation(T v, const char * f, const char * e, vf::Rng & r) {
	const size_t dp = r.below(20);
	std::vector<char> b(6000);
	snprintf(b.data(), b.size(), f, (int) dp, v);
	const std::string fixed = PrettyPrint::fixed(v, dp);
	vf::check(fixed == b.data(), "fixed", "fixed of " + num((long double) v) + " to " + std::to_string(dp) + " places is " + vf::show(fixed));
	snprintf(b.data(), b.size(), e, (int) dp, v);
	const std::string scientific = PrettyPrint::scientific(v, dp);
	vf::check(scientific == b.data(), "scientific", "scientific of " + num((long double) v) + " to " + std::to_string(dp) + " places is " + vf::show(scientific));
	vf::count("notations");
}

static vf::Mode values("values", [](int64_t, vf::Rng & r) {
	for (int n = 0; n < 20; ++n) {
		switch (r.below(9)) {
			case 0: { const float v = someFloat<float>(r); prefixes(v, r); notation(v, "%.*f", "%.*e", r); break; }
			case 1: { const long double v = someFloat<long double>(r); prefixes(v, r); notation(v, "%.*Lf", "%.*Le", r); break; }
			case 2: prefixes(someInt<int64_t>(r), r); break;
			case 3: prefixes(someInt<uint64_t>(r), r); break;
			case 4: prefixes(someInt<int>(r), r); break;
			case 5: prefixes(someInt<unsigned short>(r), r); break;
			case 6: { const double v = someFloat<double>(r); prefixes(v, r); notation(v, "%.*f", "%.*e", r); break; }
			case 7: prefixes(someFloat<double>(r), r); break;
			default: {
				const size_t v = someInt<size_t>(r);
				const size_t dp = r.below(5);
				prefixed(PrettyPrint::byteValue(v, dp), (long double) v, 1024, dp, "B", 1e-12L, "byteValue");
				vf::count("byte counts");
				break;
			}
		}
	}
});

// ------------------------------------------------ hexadecimal dumps

static void dumped(const std::string & text, const std::string & bytes, size_t line, size_t group) {
	const std::string context = "the dump of " + std::to_string(bytes.size()) + " bytes, lines of " + std::to_string(line) + ", groups of " + std::to_string(group) + ": " + vf::show(text, 400);
	std::string expected, digits;
	char b[3];
	for (unsigned char c : bytes) { snprintf(b, 3, "%02x", c); expected += b; }
	for (char c : text) if (c != ' ' && c != '\n') digits += c;
	vf::check(digits == expected, "dump", context);
	vf::count("dumps");
	if (line == 0 || line < 2 * std::max<size_t>(group, 1)) { vf::check(text == expected, "dump-single", context); return; }
	// Lines of at most the length, all but the last one full, made of groups of the size.
	size_t at = 0, total = 0;
	const size_t g = group ? group : line / 2;
	const size_t perLine = group ? g * ((line + 1) / (2 * g + 1)) : g;
	while (at < text.size()) {
		const size_t end = std::min(text.find('\n', at), text.size());
		std::string l = text.substr(at, end - at);
		vf::check(l.size() <= line, "dump-line", context);
		while (!l.empty() && l.back() == ' ') l.pop_back();
		size_t count = 0, p = 0;
		while (p < l.size()) {
			const size_t e = std::min(l.find(' ', p), l.size());
			vf::check(e - p == 2 * g || (e == l.size() && total + count + (e - p) / 2 == bytes.size()), "dump-group", context);
			count += (e - p) / 2;
			p = e + 1;
		}
		total += count;
		vf::check(count == perLine || total == bytes.size(), "dump-line", context);
		at = end + 1;
	}
}
static vf::Mode dumps("dumps", [](int64_t, vf::Rng & r) {
	for (int n = 0; n < 10; ++n) {
		const size_t line = r.chance(1, 4) ? 0 : r.below(60), group = r.chance(1, 3) ? 0 : r.below(12);
		if (r.chance(1, 6)) {
			switch (r.below(3)) {
				case 0: { const uint64_t v = r.next(); dumped(PrettyPrint::printHexBytes(v, line, group), std::string((const char *) &v, 8), line, group); break; }
				case 1: { const char v = (char) r.next(); dumped(PrettyPrint::printHexBytes(v, line, group), std::string(&v, 1), line, group); break; }
				default: { const std::array<unsigned char, 33> v = [&] { std::array<unsigned char, 33> a; for (auto & c : a) c = (unsigned char) r.next(); return a; }();
					dumped(PrettyPrint::printHexBytes(v, line, group), std::string((const char *) v.data(), v.size()), line, group); break; }
			}
			continue;
		}
		const size_t size = r.chance(1, 3) ? r.below(4) : r.below(200);
		std::unique_ptr<char[]> b(new char[size]);
		for (size_t m = 0; m < size; ++m) b[m] = r.chance(1, 6) ? (char) r.below(2) : (char) r.next();
		const std::string bytes(b.get(), size);
		dumped(PrettyPrint::printHexBytes(b.get(), size, line, group), bytes, line, group);
		vf::distinct(vf::mix(vf::hashStr(bytes), line * 100 + group));
	}
});

// ------------------------------------------------ pretty printed durations

static void prettyDuration(const std::string & text, long double t, size_t dp, const std::string & type, long double epsilon) {
	const std::string context = "the duration of " + num(t) + " s (" + type + ") to " + std::to_string(dp) + " places is " + vf::show(text);
	vf::count("durations printed");
	if (!std::isfinite(t)) { vf::count("non-finite values"); return; }
	if (t == 0) { vf::check(text == "0s", "duration", context); return; }
	if (fabsl(t) < 60) { prefixed(text, t, 1000, dp, "s", 1e-9L, "duration (" + type + ")"); return; }
	size_t m = 0;
	const bool negative = text[0] == '-';
	if (negative) ++m;
	vf::check(negative == (t < 0), "duration-sign", context);
	if (t < 0) vf::count("negative durations");
	long double total = 0;
	const char units[] = { 'd', 'h', 'm', 's' };
	const long double seconds[] = { 86400, 3600, 60, 1 };
	int last = -1;
	size_t decimals = 0;
	while (m < text.size()) {
		const size_t a = m;
		while (m < text.size() && isdigit((unsigned char) text[m])) ++m;
		const size_t digits = m - a;
		if (m < text.size() && text[m] == '.') { const size_t d = ++m; while (m < text.size() && isdigit((unsigned char) text[m])) ++m; decimals = m - d; }
		int unit = -1;
		for (int n = 0; n < 4; ++n) if (m < text.size() && text[m] == units[n]) unit = n;
		if (!vf::check(unit >= 0 && digits >= 2 && (unit == 0 || digits == 2) && (last < 0 ? unit <= 2 : unit == last + 1) && (unit == 3 || text.substr(a, m - a).find('.') == std::string::npos), "duration", context)) return;
		const long double v = strtold(text.substr(a, m - a).c_str(), nullptr);
		vf::check(unit == 0 ? v >= 1 : unit == 1 ? v < 24 : v < 60, "duration-field", context);
		if (last < 0) vf::check(v >= 1, "duration-field", context);
		total += v * seconds[unit];
		last = unit;
		++m;
	}
	vf::check(last == 3, "duration", context);
	const long double whole = floorl(fabsl(t));
	vf::check(decimals == dp || (decimals == 0 && fabsl(t) - whole <= fabsl(t) * 1e-18L), "duration-places", context);
	const long double tolerance = (dp ? 0.5L * powl(10.0L, -(long double) dp) * (1 + 1e-9L) : 1.0L) + fabsl(t) * epsilon;
	vf::check(fabsl(total - fabsl(t)) <= tolerance, "duration-value", context);
	vf::count("long durations printed");
}
template <typename D> static void duration(vf::Rng & r, const char * type) {
	using Rep = typename D::rep;
	Rep count;
	if constexpr (std::is_floating_point<Rep>::value) {
		count = r.chance(1, 4) ? someFloat<Rep>(r) : (Rep) ((long double) r.range(-100000000, 100000000) / (long double) r.of({ 1, 7, 1000, 100000 }));
	} else {
		count = someInt<Rep>(r);
		if (r.chance(1, 2)) { // next to a boundary between units
			const long double at = (long double) r.of({ 1, 59, 60, 61, 3599, 3600, 3661, 86399, 86400, 90061, 8640000 });
			const long double c = at * (long double) D::period::den / (long double) D::period::num;
			if (c < 9e18L && c <= (long double) std::numeric_limits<Rep>::max() - 3) count = (Rep) ((Rep) c + (Rep) r.range(-2, 2));
			if (r.chance(1, 4)) count = (Rep) -count;
		}
	}
	const D d(count);
	const long double t = (long double) count / (long double) D::period::den * (long double) D::period::num;
	const size_t dp = r.below(7);
	prettyDuration(PrettyPrint::duration(d, dp), t, dp, type, 1e-18L);
	vf::distinct(vf::mix((uint64_t) (int64_t) (std::isfinite((long double) count) ? std::fmod((long double) count, 1e18L) : 0), vf::hashStr(type) + dp));
}
template <typename Rep, typename P> using Dur = std::chrono::duration<Rep, P>;
static vf::Mode durations("durations", [](int64_t, vf::Rng & r) {
	for (int n = 0; n < 20; ++n) {
		switch (r.below(9)) {
			case 0: duration<std::chrono::nanoseconds>(r, "ns"); break;
			case 1: duration<std::chrono::microseconds>(r, "us"); break;
			case 2: duration<std::chrono::milliseconds>(r, "ms"); break;
			case 3: duration<std::chrono::seconds>(r, "s"); break;
			case 4: duration<std::chrono::minutes>(r, "min"); break;
			case 5: duration<Dur<int64_t, std::ratio<3600>>>(r, "h"); break;
			case 6: duration<Dur<int, std::ratio<86400>>>(r, "d"); break;
			case 7: duration<Dur<double, std::ratio<1>>>(r, "double s"); break;
			default: duration<Dur<int, std::ratio<1, 30>>>(r, "1/30 s"); break;
		}
	}
});

// ------------------------------------------------ dates and durations in formats

static std::string fraction(int64_t sub, int digits) {
	if (!digits) return "";
	char b[32];
	snprintf(b, sizeof b, ".%0*lld", digits, (long long) sub);
	return b;
}
// The format with strftime, its seconds being given their fraction.
static std::string reference(const std::string & format, int64_t seconds, int64_t sub, int digits) {
	time_t t = (time_t) seconds;
	tm f {};
	gmtime_r(&t, &f);
	std::string o;
	for (size_t m = 0; m < format.size(); ++m) {
		if (format[m] != '%') { o += format[m]; continue; }
		const char c = format[++m];
		char b[100];
		const std::string one = std::string("%") + c;
		const size_t n = strftime(b, sizeof b, one.c_str(), &f);
		o.append(b, n);
		if (c == 'S' || c == 'T') o += fraction(sub, digits);
	}
	return o;
}
static const char timeSpecs[] = { 'Y', 'm', 'd', 'H', 'M', 'S', 'F', 'T', 'y', 'C', 'e', 'j', 'a', 'A', 'b', 'B', 'u', 'w', 'I', 'p', 'U', 'W', 'V', 'G', 'g', 'D', 'h', 'n', 't', '%', 'R', 'r' };

template <typename D> static void timePoint(vf::Rng & r, int digits) {
	const int64_t scale = D::period::den;
	const int64_t lowest = digits == 9 ? -9214560000ll : -30610224000ll, highest = digits == 9 ? 9214560000ll : 253402300799ll;
	int64_t seconds;
	switch (r.below(4)) {
		case 0: seconds = r.range(-5, 5); break;
		case 1: { // next to the start of a day, a month or a year
			tm f {};
			f.tm_year = (int) r.range(digits == 9 ? 1680 : 1001, digits == 9 ? 2260 : 9998) - 1900;
			f.tm_mon = r.chance(1, 2) ? r.of({ 0, 1, 2 }) : (int) r.below(12);
			f.tm_mday = r.chance(1, 2) ? 1 : r.of({ 28, 29 });
			seconds = timegm(&f) + r.range(-2, 1);
			break;
		}
		default: seconds = r.range(lowest, highest); break;
	}
	const int64_t sub = scale == 1 ? 0 : r.chance(1, 3) ? r.of<int64_t>({ 0, 1, scale - 1, scale / 2 }) : (int64_t) r.below((uint64_t) scale);
	const std::chrono::time_point<std::chrono::system_clock, D> t(D(seconds * scale + sub));
	std::string format;
	for (uint64_t n = 1 + r.below(6); n; --n) {
		format += '%';
		format += timeSpecs[r.below(sizeof timeSpecs)];
		if (r.chance(1, 2)) format += r.of({ "-", ":", " at ", "/", "x" });
	}
	const std::string expected = reference(format, seconds, sub, digits);
	std::string actual;
	switch (r.below(3)) {
		case 0: actual = DateTime::toString(format.c_str(), t); break;
		case 1: { std::ostringstream s; s << "before "; DateTime::toString(s, format.c_str(), t); actual = s.str().substr(7); break; }
		default: actual = DateTime::toString<std::allocator<char>>(format.c_str(), t).c_str(); break;
	}
	vf::check(actual == expected, "date", "the time " + std::to_string(seconds) + " s" + fraction(sub, digits) + " as " + vf::show(format) + " is " + vf::show(actual) + " and not " + vf::show(expected));
	vf::count("times printed");
	if (r.chance(1, 4)) {
		const std::string whole = toString(t), w = reference("%Y-%m-%d %H:%M:%S", seconds, sub, digits);
		vf::check(whole == w, "date", "toString of the time " + w + " is " + whole);
	}
	vf::distinct(vf::mix(vf::hashStr(format), (uint64_t) (seconds * 31 + sub)));
}
template <typename D> static void clockDuration(vf::Rng & r, int digits, const char * unit) {
	const int64_t scale = D::period::den;
	const int64_t seconds = r.chance(1, 4) ? r.of<int64_t>({ 0, 59, 60, 3599, 3600, 86399, 86400, 359999 }) : (int64_t) r.below(360000);
	const int64_t sub = scale == 1 ? 0 : r.chance(1, 3) ? r.of<int64_t>({ 0, 1, scale - 1, scale / 2 }) : (int64_t) r.below((uint64_t) scale);
	const D d(seconds * scale + sub);
	char b[64];
	const bool full = r.chance(3, 4);
	const char * format = full ? (r.chance(1, 2) ? "%H:%M:%S" : "%T") : "%Hh %Mm %Ss";
	snprintf(b, sizeof b, full ? "%02lld:%02lld:%02lld" : "%02lldh %02lldm %02lld", (long long) seconds / 3600, (long long) seconds / 60 % 60, (long long) seconds % 60);
	const std::string expected = b + fraction(sub, digits) + (full ? "" : "s");
	std::string actual;
	switch (r.below(3)) {
		case 0: actual = DateTime::toString(format, d); break;
		case 1: { std::ostringstream s; DateTime::toString(s, format, d); actual = s.str(); break; }
		default: actual = DateTime::toString<std::allocator<char>>(format, d).c_str(); break;
	}
	const std::string context = "the duration " + std::to_string(d.count()) + unit + " as " + format + " is " + vf::show(actual);
	vf::check(actual == expected, "clock-duration", context);
	const D back = DateTime::toDuration<typename D::rep, typename D::period>(format, expected);
	vf::check(back == d, "round-trip", context + " and parsed again " + std::to_string(back.count()) + unit);
	if (digits < 9) {
		const auto finer = DateTime::toDuration<int64_t, std::nano>(format, expected);
		vf::check(finer == d, "round-trip", context + " and parsed as nanoseconds " + std::to_string(finer.count()));
	}
	const std::string plain = toString(d);
	vf::check(plain == std::to_string(d.count()) + unit, "plain-duration", "toString of " + std::to_string(d.count()) + unit + " is " + vf::show(plain));
	vf::count("durations parsed again");
	vf::distinct(vf::mix((uint64_t) d.count(), (uint64_t) digits + vf::hashStr(format)));
}
static vf::Mode formats("formats", [](int64_t, vf::Rng & r) {
	setenv("TZ", r.of({ "UTC", "UTC-11", "Europe/Rome" }), 1); // must not matter
	tzset();
	for (int n = 0; n < 10; ++n) {
		switch (r.below(8)) {
			case 0: timePoint<std::chrono::seconds>(r, 0); break;
			case 1: timePoint<std::chrono::milliseconds>(r, 3); break;
			case 2: timePoint<std::chrono::microseconds>(r, 6); break;
			case 3: timePoint<std::chrono::nanoseconds>(r, 9); break;
			case 4: clockDuration<std::chrono::seconds>(r, 0, "s"); break;
			case 5: clockDuration<std::chrono::milliseconds>(r, 3, "ms"); break;
			case 6: clockDuration<std::chrono::microseconds>(r, 6, "\xc2\xb5s"); break;
			default: clockDuration<std::chrono::nanoseconds>(r, 9, "ns"); break;
		}
	}
});
