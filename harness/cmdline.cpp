//
// cmdline.cpp : monitors of the command line parser (P13) against the meaning from which
// the arguments were generated.
//
#include "unicode.hpp"

#include <Balau/Application/CommandLine.hpp>
#include <cmath>
#include <regex>

using namespace Balau;
using vf::show;

struct Opt {
	std::string shortSwitch, longSwitch, doc;
	bool hasValue, help;
};
enum class Final { No, Yes, Maybe };

template <typename KeyT> struct Keys;
template <> struct Keys<std::string> { static std::string key(int n) { return "key " + std::to_string(n); } };
template <> struct Keys<int> { static int key(int n) { return n * 7 - 3; } };

template <typename F> static std::string refused(F f) {
	try {
		f();
		return "";
	} catch (const Exception::OptionNotFoundException &) {
		return "not found";
	} catch (const Exception::MissingOptionValueException &) {
		return "missing value";
	} catch (const Exception::MissingFinalValueException &) {
		return "missing final";
	} catch (const Exception::OptionValueException &) {
		return "value";
	} catch (const Exception::BalauException & e) {
		return std::string("refused: ") + e.what();
	} catch (const std::exception & e) {
		return std::string("other: ") + e.what();
	}
}
static std::string word(vf::Rng & r) {
	static const char * const words[] = { "k", "key-one", "a", "b", "file", "x", "long-name", "a1", "3", "verbose", "v", "no-x", "\xC3\xA9", "q_r", "aa", "D" };
	return words[r.below(16)];
}
// A value has no surrounding blanks.
static std::string value(vf::Rng & r, bool dashes, bool equals) {
	std::string s;
	switch (r.below(12)) {
		case 0: s = std::to_string((int64_t) r.next()); break;
		case 1: s = std::to_string(r.next()); break;
		case 2: s = std::to_string(r.range(-70000, 70000)); break;
		case 3: s = r.of<const char *>({ "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
			"9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0", "-1", "+5", "007" }); break;
		case 4: s = std::to_string(r.range(-1000, 1000)) + r.of<const char *>({ "x", " 1", ".", "e", "-", "L", ".5", "\xC3\xA9", "+", "0x" }); break;
		case 5: { char b[64]; snprintf(b, sizeof b, r.chance(1, 2) ? "%.9g" : "%.17g", std::ldexp((double) (int64_t) r.next(), (int) r.range(-90, 40))); s = b; break; }
		case 6: s = r.of<const char *>({ "1e3", "-2.5e-7", ".5", "5.", "1e", "e1", "--5", "+-5", "0x1p3", "1,5", "1e5000", "nan(", "1.5.5" }); break;
		case 7: { for (int n = (int) r.range(1, 12); n > 0; --n) uni::put(s, 33 + (uint32_t) r.below(94)); break; }
		case 8: { for (int n = (int) r.range(1, 6); n > 0; --n) uni::put(s, r.of<uint32_t>({ 'a', 0xE9, 0x6F22, 0x1F600 })); break; }
		case 9: s = word(r); break;
		case 10: s = "two words"; break;
		default: s = r.chance(1, 3) ? std::string((size_t) r.range(30, 400), 'v') : "-" + word(r); break;
	}
	if (!equals) for (auto & c : s) if (c == '=') c = '_';
	if (!dashes) while (!s.empty() && s[0] == '-') s.erase(0, 1);
	if (s.empty()) s = "v";
	return s;
}

// ------------------------------------------------ numbers

template <typename T> static bool integerOf(const std::string & s, T & out) {
	static const std::regex number("[+-]?[0-9]+");
	if (!std::regex_match(s, number)) return false;
	const bool negative = s[0] == '-';
	if (negative && std::is_unsigned<T>::value) return false;
	__int128 v = 0;
	for (char c : s) if (c >= '0' && c <= '9') { v = v * 10 + (c - '0'); if (v > ((__int128) 1 << 70)) return false; }
	if (negative) v = -v;
	if (v < (__int128) std::numeric_limits<T>::min() || v > (__int128) std::numeric_limits<T>::max()) return false;
	out = (T) v;
	return true;
}
template <typename T> static int floatOf(const std::string & s, T & out) { // 1 is a number, 0 is not, -1 is not judged
	char * end = nullptr;
	errno = 0;
	if (std::is_same<T, float>::value) out = (T) strtof(s.c_str(), &end);
	else out = (T) strtod(s.c_str(), &end);
	if (end == s.c_str() || *end) return 0;
	if (errno == ERANGE) return std::isinf(out) ? 0 : -1; // tiny numbers may be refused
	return std::isnan(out) ? -1 : 1;
}
template <typename T, typename Get> static void integer(const std::string & text, const std::string & what, Get get) {
	T want {}, got {};
	const bool ok = integerOf<T>(text, want);
	const std::string e = refused([&] () { got = get(); });
	if (ok) vf::check(e.empty() && got == want, "integer", what + " of " + show(text) + ": " + (e.empty() ? std::to_string(got) : e) + " instead of " + std::to_string(want));
	else vf::check(e == "value", "integer-refused", what + " of " + show(text) + ": " + (e.empty() ? "accepted as " + std::to_string(got) : e));
	vf::count(ok ? "integers converted" : "integers refused");
}
template <typename T, typename Get> static void floating(const std::string & text, const std::string & what, Get get) {
	T want {}, got {};
	const int ok = floatOf<T>(text, want);
	const std::string e = refused([&] () { got = get(); });
	if (ok == 1) vf::check(e.empty() && got == want, "float", what + " of " + show(text) + ": " + (e.empty() ? std::to_string(got) : e) + " instead of " + std::to_string(want));
	else if (ok == 0) vf::check(e == "value", "float-refused", what + " of " + show(text) + ": " + (e.empty() ? "accepted as " + std::to_string(got) : e));
	else vf::check(e.empty() || e == "value", "float-refused", what + " of " + show(text) + ": " + e);
	vf::count(ok == 1 ? "floats converted" : "floats refused");
}

// ------------------------------------------------ parsing

template <typename KeyT> struct Session {
	vf::Rng & r;
	std::vector<Opt> opts;
	Final final = Final::No;
	CommandLineStyle style = CommandLineStyle::Detect;
	CommandLine<KeyT> cl;

	explicit Session(vf::Rng & r_) : r(r_) {
		style = r.of<CommandLineStyle>({ CommandLineStyle::Detect, CommandLineStyle::SwitchSpaceValue, CommandLineStyle::SwitchEqualsValue });
		final = r.of<Final>({ Final::No, Final::Yes, Final::Maybe });
		cl = CommandLine<KeyT>(style);
		std::set<std::string> used;
		const auto fresh = [&] () { for (;;) { std::string w = word(r); if (r.chance(1, 4)) w += std::to_string(r.below(50)); if (used.insert(w).second) return w; } };
		const int n = (int) r.range(1, 8);
		for (int m = 0; m < n; ++m) {
			Opt o;
			o.help = m == 0 && r.chance(1, 2);
			o.shortSwitch = fresh();
			if (o.help || r.chance(1, 2)) o.longSwitch = fresh();
			o.hasValue = !o.help && r.chance(2, 3);
			for (int k = (int) r.below(r.chance(1, 3) ? 200 : 30); k > 0; --k) o.doc += (char) ('a' + r.below(26));
			opts.push_back(o);
			const KeyT key = Keys<KeyT>::key(m);
			if (o.help) cl.withHelpOption(key, o.shortSwitch, o.longSwitch, o.doc);
			else if (o.longSwitch.empty()) cl.withOption(key, o.shortSwitch, o.hasValue, o.doc);
			else cl.withOption(key, o.shortSwitch, o.longSwitch, o.hasValue, o.doc);
		}
		if (final == Final::Yes) cl.withFinalValue();
		if (final == Final::Maybe) cl.withOptionalFinalValue();
	}
	std::string unknown() { for (;;) { std::string w = "unknown" + word(r); bool used = false; for (auto & o : opts) used |= o.shortSwitch == w || o.longSwitch == w; if (!used) return w; } }

	std::string parse(const std::vector<std::string> & args, bool ignoreFirst) {
		std::vector<std::unique_ptr<char[]>> exact; // each argument in an allocation of its own
		std::vector<char *> argv;
		for (auto & a : args) { exact.emplace_back(new char[a.size() + 1]); memcpy(exact.back().get(), a.c_str(), a.size() + 1); argv.push_back(exact.back().get()); }
		std::unique_ptr<char *[]> v(new char *[argv.size()]);
		std::copy(argv.begin(), argv.end(), v.get());
		switch (r.below(3)) {
			case 0: return refused([&] () { cl.parse((int) args.size(), v.get(), ignoreFirst); });
			case 1: return refused([&] () { cl.parse((int) args.size(), (const char **) v.get(), ignoreFirst); });
			default: { auto copy = args; copy.shrink_to_fit(); return refused([&] () { cl.parse(copy, ignoreFirst); }); }
		}
	}
	std::string describe(const std::vector<std::string> & args) {
		std::string s = style == CommandLineStyle::Detect ? "detect" : style == CommandLineStyle::SwitchSpaceValue ? "space" : "equals";
		s += final == Final::No ? ", no final value" : final == Final::Yes ? ", final value" : ", optional final value";
		for (auto & o : opts) s += " [" + o.shortSwitch + "|" + o.longSwitch + (o.hasValue ? " value]" : "]");
		for (auto & a : args) s += " " + show(a, 60);
		return s;
	}
	void query(const CommandLine<KeyT> & c, const std::map<int, std::string> & given, const std::vector<std::string> & finals, const std::string & what) {
		for (int m = 0; m <= (int) opts.size(); ++m) { // the last one is not defined
			const KeyT key = Keys<KeyT>::key(m);
			const auto i = given.find(m);
			const bool there = i != given.end();
			vf::check(c.hasOption(key) == there, "presence", "option " + std::to_string(m) + " is " + (there ? "absent" : "present") + ": " + what);
			std::string got;
			const std::string e = refused([&] () { got = c.getOption(key); });
			if (there) vf::check(e.empty() && got == i->second, "value", "option " + std::to_string(m) + " is " + (e.empty() ? show(got) : e) + " instead of " + show(i->second) + ": " + what);
			else vf::check(e == "not found", "absent-value", "absent option " + std::to_string(m) + " has the value " + show(got) + " or " + e + ": " + what);
			vf::check(c.getOptionOrDefault(key, "default") == (there ? i->second : "default"), "value-or-default", "option " + std::to_string(m) + ": " + what);
			if (!there) {
				vf::check(c.getOptionAsIntOrDefault(key, -42) == -42 && c.getOptionAsUnsignedLongOrDefault(key, ~0ull) == ~0ull && c.getOptionAsDoubleOrDefault(key, 0.25) == 0.25
					&& c.getOptionAsShortOrDefault(key, -7) == -7 && c.getOptionAsUnsignedShortOrDefault(key, 65535) == 65535 && c.getOptionAsUnsignedIntOrDefault(key, 0xffffffffu) == 0xffffffffu
					&& c.getOptionAsLongOrDefault(key, LLONG_MIN) == LLONG_MIN && c.getOptionAsFloatOrDefault(key, 1.5f) == 1.5f, "default", "defaults of an absent option: " + what);
				std::string es[] = { refused([&] () { c.getOptionAsShort(key); }), refused([&] () { c.getOptionAsUnsignedLong(key); }), refused([&] () { c.getOptionAsFloat(key); }) };
				for (auto & x : es) vf::check(x == "not found", "absent-number", "a number of an absent option: " + x + ": " + what);
				continue;
			}
			if (!opts[(size_t) m].hasValue) continue;
			const std::string & t = i->second;
			const bool d = r.chance(1, 2); // the form with a default gives the same
			integer<short>(t, "short", [&] () { return d ? c.getOptionAsShortOrDefault(key, 1) : c.getOptionAsShort(key); });
			integer<unsigned short>(t, "unsigned short", [&] () { return d ? c.getOptionAsUnsignedShortOrDefault(key, 1) : c.getOptionAsUnsignedShort(key); });
			integer<int>(t, "int", [&] () { return d ? c.getOptionAsIntOrDefault(key, 1) : c.getOptionAsInt(key); });
			integer<unsigned int>(t, "unsigned int", [&] () { return d ? c.getOptionAsUnsignedIntOrDefault(key, 1) : c.getOptionAsUnsignedInt(key); });
			integer<long long>(t, "long", [&] () { return d ? c.getOptionAsLongOrDefault(key, 1) : c.getOptionAsLong(key); });
			integer<unsigned long long>(t, "unsigned long", [&] () { return d ? c.getOptionAsUnsignedLongOrDefault(key, 1) : c.getOptionAsUnsignedLong(key); });
			floating<float>(t, "float", [&] () { return d ? c.getOptionAsFloatOrDefault(key, 1) : c.getOptionAsFloat(key); });
			floating<double>(t, "double", [&] () { return d ? c.getOptionAsDoubleOrDefault(key, 1) : c.getOptionAsDouble(key); });
		}
		vf::check(c.getFinalValueCount() == finals.size(), "final-count", std::to_string(c.getFinalValueCount()) + " final values instead of " + std::to_string(finals.size()) + ": " + what);
		for (size_t k = 0; k < finals.size() + 2; ++k) {
			std::string got;
			const std::string e = refused([&] () { got = k == 0 && r.chance(1, 2) ? c.getFinalValue() : c.getFinalValue(k); });
			if (k < finals.size()) {
				vf::check(e.empty() && got == finals[k], "final-value", "final value " + std::to_string(k) + " is " + (e.empty() ? show(got) : e) + " instead of " + show(finals[k]) + ": " + what);
				vf::check(c.getFinalValueOrDefault("default", k) == finals[k], "final-value-or-default", what);
				const bool d = r.chance(1, 2);
				floating<float>(finals[k], "final float", [&] () { return d ? c.getFinalValueAsFloatOrDefault(1, k) : c.getFinalValueAsFloat(k); });
				floating<double>(finals[k], "final double", [&] () { return d ? c.getFinalValueAsDoubleOrDefault(1, k) : c.getFinalValueAsDouble(k); });
			} else {
				vf::check(e == "not found", "final-absent", "absent final value " + std::to_string(k) + " is " + show(got) + " or " + e + ": " + what);
				vf::check(c.getFinalValueOrDefault("default", k) == "default" && c.getFinalValueAsFloatOrDefault(0.5f, k) == 0.5f && c.getFinalValueAsDoubleOrDefault(0.25, k) == 0.25, "final-default", what);
				vf::check(refused([&] () { c.getFinalValueAsFloat(k); }) == "not found" && refused([&] () { c.getFinalValueAsDouble(k); }) == "not found", "final-absent", what);
			}
		}
	}
	void run() {
		for (int parses = (int) r.range(1, 3); parses > 0; --parses) {
			const bool space = style == CommandLineStyle::Detect ? r.chance(1, 2) : style == CommandLineStyle::SwitchSpaceValue;
			std::map<int, std::string> given;
			std::vector<std::string> finals, args;
			const auto spell = [&] (const Opt & o) {
				const bool l = !o.longSwitch.empty() && r.chance(1, 2);
				return space ? (l ? "--" + o.longSwitch : "-" + o.shortSwitch) : (l ? o.longSwitch : o.shortSwitch);
			};
			const auto isSwitch = [&] (const std::string & s) { for (auto & o : opts) if (o.shortSwitch == s || o.longSwitch == s) return true; return false; };
			// A stand-alone value, which is not a switch in the style.
			const auto standAlone = [&] () {
				for (;;) {
					const std::string v = value(r, !space, true);
					if (space && v[0] == '-') continue;
					if (!space && isSwitch(v.substr(0, v.find('=')))) continue;
					return v;
				}
			};
			for (int n = (int) r.below(7); n > 0; --n) {
				if (space && final != Final::No && !args.empty() && r.chance(1, 6)) { finals.push_back(standAlone()); args.push_back(finals.back()); continue; }
				const int m = (int) r.below(opts.size());
				const Opt & o = opts[(size_t) m];
				if (o.hasValue) {
					const std::string v = !space && r.chance(1, 12) ? "" : value(r, true, true);
					given[m] = v;
					if (space) { args.push_back(spell(o)); args.push_back(v); }
					else args.push_back(spell(o) + "=" + v);
				} else {
					given[m] = "";
					args.push_back(spell(o));
				}
			}
			const bool addFinal = final == Final::Yes ? finals.empty() : final == Final::Maybe && (space || !args.empty() || style != CommandLineStyle::Detect) && finals.empty() && r.chance(1, 2);
			if (addFinal) { finals.push_back(standAlone()); args.push_back(finals.back()); }
			if (style == CommandLineStyle::Detect && !args.empty()) { // the style must be the one that the first argument shows
				const bool seen = args[0][0] == '-';
				const bool only = args.size() == 1 && final == Final::Yes;
				if (only ? args[0][0] == '-' : seen != space) continue;
			}
			// Faults
			std::string expected;
			const uint64_t fault = r.below(8);
			if (fault == 0 && !(final != Final::No && !space && args.empty())) { // an unknown option
				const std::string u = (space ? "-" : "") + unknown() + (space || r.chance(1, 2) ? "" : "=v");
				const size_t at = 0;
				args.insert(args.begin() + (long) at, u);
				expected = "not found";
				if (final != Final::No && args.size() == 1) continue;
			} else if (fault == 1) { // a value missing at the end
				int m = -1;
				for (size_t k = 0; k < opts.size(); ++k) if (opts[k].hasValue) m = (int) k;
				if (m < 0 || (final == Final::Yes && !space) || (!space && !finals.empty()) || (style == CommandLineStyle::Detect && (args.empty() || (args[0][0] == '-') != space))) continue;
				args.push_back(spell(opts[(size_t) m]));
				expected = "missing value";
			} else if (fault == 2) { // a stray value
				if (final != Final::No || (style == CommandLineStyle::Detect && args.empty())) continue;
				args.push_back(standAlone());
				expected = "any";
			} else if (fault == 3 && !space) { // a value for an option that has none
				int m = -1;
				for (size_t k = 0; k < opts.size(); ++k) if (!opts[k].hasValue) m = (int) k;
				if (m < 0) continue;
				args.insert(args.begin(), spell(opts[(size_t) m]) + "=" + unknown());
				expected = "any";
			} else if (fault == 4 && r.chance(1, 4) && final == Final::Yes) { // nothing at all
				args.clear();
				expected = "missing final";
			}
			const bool ignoreFirst = r.chance(1, 2) || args.empty();
			if (ignoreFirst && !(args.empty() && r.chance(1, 2))) args.insert(args.begin(), r.of<const char *>({ "program", "-program", "a=b", "" }));
			const std::string what = describe(args);
			vf::distinct(what);
			vf::sample(what);
			const std::string e = parse(args, ignoreFirst);
			if (!expected.empty()) {
				vf::check(expected == "any" ? !e.empty() && e.compare(0, 6, "other:") != 0 : e == expected, "refusal", "a command line " + (e.empty() ? std::string("is accepted") : "gives '" + e + "'") + " instead of '" + expected + "': " + what);
				vf::count("command lines refused");
				continue;
			}
			if (!vf::check(e.empty(), "accepted", "a command line is refused with '" + e + "': " + what)) continue;
			vf::count("command lines parsed");
			if (!finals.empty()) vf::count("final values");
			switch (r.below(4)) {
				case 0: { CommandLine<KeyT> copy(cl); query(copy, given, finals, what); break; }
				case 1: { CommandLine<KeyT> other; other = cl; CommandLine<KeyT> moved(std::move(other)); query(moved, given, finals, what); break; }
				default: query(cl, given, finals, what); break;
			}
		}
	}
	void help() {
		const size_t indent = r.below(9);
		size_t width = r.chance(1, 3) ? r.below(30) : 30 + r.below(100);
		const CommandLineStyle over = r.of<CommandLineStyle>({ CommandLineStyle::Detect, CommandLineStyle::SwitchSpaceValue, CommandLineStyle::SwitchEqualsValue });
		const bool dashes = (over != CommandLineStyle::Detect ? over : style) != CommandLineStyle::SwitchEqualsValue;
		const std::string got = cl.getHelpText(indent, width, over);
		std::map<KeyT, size_t> order;
		size_t longest = 0;
		const auto switches = [&] (const Opt & o) { return (dashes ? "-" : "") + o.shortSwitch + (o.longSwitch.empty() ? "" : (dashes ? ", --" : ", ") + o.longSwitch); };
		for (size_t m = 0; m < opts.size(); ++m) { order[Keys<KeyT>::key((int) m)] = m; longest = std::max(longest, switches(opts[m]).size()); }
		width = std::max(width, longest + 20);
		std::string want;
		for (auto & [k, m] : order) {
			const Opt & o = opts[m];
			std::string s = switches(o);
			want += std::string(indent, ' ') + s + std::string(longest - s.size(), ' ') + " - ";
			for (size_t at = 0; at == 0 || at < o.doc.size(); at += width) want += (at ? std::string(indent + 3 + longest, ' ') : "") + o.doc.substr(at, width) + "\n";
		}
		vf::check(got == want, "help", "the help text is " + show(got, 900) + " instead of " + show(want, 900));
		vf::count("help texts");
	}
};
static vf::Mode parse("parse", [] (int64_t, vf::Rng & r) {
	if (r.chance(1, 2)) { Session<std::string> s(r); if (r.chance(1, 3)) s.help(); s.run(); }
	else { Session<int> s(r); if (r.chance(1, 3)) s.help(); s.run(); }
});

// Any arguments: an interpretation or a refusal, and nothing outside them is read.
static vf::Mode hostile("hostile", [] (int64_t, vf::Rng & r) {
	Session<int> s(r);
	for (int n = 4; n > 0; --n) {
		std::vector<std::string> args;
		for (int k = (int) r.below(7); k > 0; --k) {
			const Opt & o = r.pick(s.opts);
			switch (r.below(8)) {
				case 0: args.push_back(uni::hostile(r, 8)); break;
				case 1: args.push_back(r.of<const char *>({ "", "-", "--", "=", "-=", "--=", "a=", "=a", " ", "- ", "==", "---" })); break;
				case 2: args.push_back("-" + o.shortSwitch); break;
				case 3: args.push_back("--" + o.longSwitch); break;
				case 4: args.push_back(o.shortSwitch + "=" + value(r, true, true)); break;
				case 5: args.push_back(o.shortSwitch); break;
				case 6: args.push_back(" " + o.shortSwitch + " = " + value(r, true, true) + " "); break;
				default: args.push_back(value(r, true, true)); break;
			}
		}
		for (auto & a : args) a.erase(std::remove(a.begin(), a.end(), '\0'), a.end());
		const std::string what = s.describe(args);
		vf::distinct(what);
		const std::string e = s.parse(args, r.chance(1, 2));
		vf::check(e.compare(0, 6, "other:") != 0, "exception", "a command line gives '" + e + "': " + what);
		vf::count(e.empty() ? "hostile command lines parsed" : "hostile command lines refused");
		for (int m = 0; m < (int) s.opts.size(); ++m) {
			std::string v;
			const std::string x = refused([&] () { v = s.cl.getOption(Keys<int>::key(m)); });
			if (e.empty() && x.empty() && s.opts[(size_t) m].hasValue) { // what is given comes from the arguments
				bool found = v.empty();
				for (auto & a : args) found |= a.find(v) != std::string::npos;
				vf::check(found, "invented", "option " + std::to_string(m) + " has the value " + show(v) + ": " + what);
			}
			refused([&] () { s.cl.getOptionAsInt(Keys<int>::key(m)); });
			refused([&] () { s.cl.getOptionAsDouble(Keys<int>::key(m)); });
		}
	}
});
