//
// logging.cpp : monitors of the logging system (P14, P15, P16).
//
// Streams registered by the harness record what reaches them, without any synchronisation
// of their own (one record per thread), so that they do not hide races of the library.
//
#include "inject.hpp"
#include <Balau/Type/StdTypes.hpp>
#include <Balau/Util/Files.hpp>
#include <Balau/System/ThreadName.hpp>
#include <Balau/Exception/LoggingExceptions.hpp>
#include <Balau/Logging/Logger.hpp>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <memory>
#include <optional>
#include <sys/wait.h>
#include <sys/stat.h>

using namespace Balau;

namespace {

//////////////////////////////// Recording streams ///////////////////////////////

struct Event { const std::string * stream; bool flush; std::string text; };
thread_local std::vector<Event> * record = nullptr; // where the calling thread's output goes

class RecordingStream : public LoggingStream {
	public: const std::string name;
	public: explicit RecordingStream(std::string n) : name(std::move(n)) {}
	public: void write(const LoggingSystem::LoggerString & s) override {
		if (record) record->push_back({ &name, false, std::string(s.data(), s.size()) });
	}
	public: void flush() override {
		if (record) record->push_back({ &name, true, std::string() });
	}
};

LoggingStream * newRecordingStream(std::string_view uri) {
	return new RecordingStream(std::string(uri));
}

// Text written to std::cout or std::cerr in the scope of a capture.
struct Capture {
	std::ostringstream out, err;
	std::streambuf * o, * e;
	Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
	~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

void registerStreams() {
	static bool done = false;
	if (done) return;
	done = true;
	Logger::registerLoggingStreamFactory("cap", newRecordingStream);
}

std::string readFile(const std::string & path) {
	std::ifstream in(path, std::ios::binary);
	std::ostringstream o;
	o << in.rdbuf();
	return o.str();
}
void writeFile(const std::string & path, const std::string & text) {
	std::ofstream o(path, std::ios::binary | std::ios::trunc);
	o << text;
}

const LoggingLevel LEVELS[] = { LoggingLevel::TRACE, LoggingLevel::DEBUG, LoggingLevel::INFO, LoggingLevel::WARN, LoggingLevel::ERROR };
const char * const LOWER[] = { "error", "warn", "info", "debug", "trace" };
const char * const UPPER[] = { "ERROR", "WARN", "INFO", "DEBUG", "TRACE" };

// One logging call, through one of the forms that the logger offers.
template <typename M, typename ... P>
void call(const Logger & l, LoggingLevel lv, bool viaLog, const SourceCodeLocation * loc, const M & message, const P & ... p) {
	if (viaLog) {
		if (loc) l.log(lv, *loc, message, p ...); else l.log(lv, message, p ...);
		return;
	}
	switch (lv) {
		case LoggingLevel::TRACE: if (loc) l.trace(*loc, message, p ...); else l.trace(message, p ...); break;
		case LoggingLevel::DEBUG: if (loc) l.debug(*loc, message, p ...); else l.debug(message, p ...); break;
		case LoggingLevel::INFO: if (loc) l.info(*loc, message, p ...); else l.info(message, p ...); break;
		case LoggingLevel::WARN: if (loc) l.warn(*loc, message, p ...); else l.warn(message, p ...); break;
		default: if (loc) l.error(*loc, message, p ...); else l.error(message, p ...); break;
	}
}

struct Form { bool viaLog, view, function; const SourceCodeLocation * loc; };
Form randomForm(vf::Rng & r, const SourceCodeLocation * loc) {
	return { r.chance(1, 5), r.chance(1, 2), r.chance(1, 6), r.chance(1, 2) ? loc : nullptr };
}
// The text is in an allocation of exactly its size, for the memory monitors.
template <typename ... P>
void callForm(const Logger & l, LoggingLevel lv, const Form & f, const std::string & text, const P & ... p) {
	if (f.view) {
		std::unique_ptr<char []> b(new char[text.size()]);
		memcpy(b.get(), text.data(), text.size());
		call(l, lv, f.viaLog, f.loc, std::string_view(b.get(), text.size()), p ...);
	} else {
		std::unique_ptr<char []> b(new char[text.size() + 1]);
		memcpy(b.get(), text.c_str(), text.size() + 1);
		call(l, lv, f.viaLog, f.loc, (const char *) b.get(), p ...);
	}
}
void callFunction(const Logger & l, LoggingLevel lv, const Form & f, const std::function<std::string ()> & fn) {
	call(l, lv, f.viaLog, f.loc, fn);
}

///////////////////////////////// Format reference ///////////////////////////////

// Specifiers, longest first where one begins another.
const char * const SPECS[] = { "%message", "%namespace", "%thread", "%LEVEL", "%level", "%filename", "%filepath", "%ns",
	"%Y", "%y", "%m", "%d", "%H", "%M", "%S", "%%", "%\"" };

std::string abbreviated(const std::string & ns) {
	std::string o;
	size_t from = 0;
	for (;;) {
		size_t dot = ns.find('.', from);
		if (dot == std::string::npos) return o + ns.substr(from);
		o += ns[from];
		o += '.';
		from = dot + 1;
	}
}

struct Context { std::string ns; LoggingLevel level; const char * location; std::string message; bool wildMessage = false; timespec before, after; };

// The piece of text at pos must be the two or four digits of the time before or after the call.
bool timePiece(const std::string & text, size_t & pos, const char * spec, const Context & c) {
	for (const timespec & t : { c.before, c.after }) {
		tm x {};
		gmtime_r(&t.tv_sec, &x);
		char b[32];
		size_t n = strftime(b, sizeof b, spec, &x);
		if (text.compare(pos, n, b, n) == 0) { pos += n; return true; }
	}
	return false;
}

// Match a logged line with the format: empty if it is what the format says, or what is wrong.
std::string matchLine(const std::string & line, const std::string & format, const Context & c, const std::function<bool (const std::string &, size_t &)> & wild = {}) {
	size_t pos = 0, f = 0;
	while (f < format.size()) {
		const char * spec = nullptr;
		for (auto s : SPECS) if (format.compare(f, strlen(s), s) == 0) { spec = s; break; }
		if (!spec) {
			if (pos >= line.size() || line[pos] != format[f]) return "text '" + format.substr(f, 10) + "' of the format is not at " + std::to_string(pos);
			++pos; ++f;
			continue;
		}
		f += strlen(spec);
		std::string s = spec, want;
		if (s.size() == 2 && strchr("YymdHM", s[1])) {
			if (!timePiece(line, pos, spec, c)) return s + " is not the time at " + std::to_string(pos);
			continue;
		}
		if (s == "%S") {
			if (pos + 2 > line.size() || !isdigit(line[pos]) || !isdigit(line[pos + 1])) return "seconds are not there";
			int sec = atoi(line.substr(pos, 2).c_str());
			pos += 2;
			int64_t nanos = 0, scale = 100000000, digits = 0;
			if (pos < line.size() && line[pos] == '.') {
				size_t q = pos + 1;
				while (q < line.size() && isdigit(line[q]) && digits < 9) { nanos += (line[q] - '0') * scale; scale /= 10; ++q; ++digits; }
				if (digits >= 6) pos = q; else nanos = 0, digits = 0;
			}
			// Within the minute, the time is not before the call and not after it.
			auto in = [&] (int64_t sFrom, int64_t sTo) {
				int64_t unit = 1;
				for (int m = (int) digits; m < 9; ++m) unit *= 10;
				int64_t v = sec * 1000000000LL + nanos;
				return v + unit > sFrom && v <= sTo;
			};
			int64_t b = (c.before.tv_sec % 60) * 1000000000LL + c.before.tv_nsec, a = (c.after.tv_sec % 60) * 1000000000LL + c.after.tv_nsec;
			bool ok = a >= b && c.after.tv_sec - c.before.tv_sec < 60 ? in(b, a) : in(b, 60000000000LL) || in(0, a);
			if (c.after.tv_sec - c.before.tv_sec >= 59) ok = true;
			if (!ok) return "%S is not the time of the call";
			if (digits < 6) return "%S has no microseconds";
			continue;
		}
		if (s == "%message" && wild) {
			if (!wild(line, pos)) return "the message is not its template with the parameters";
			continue;
		}
		if (s == "%message") want = c.message;
		else if (s == "%namespace") want = c.ns;
		else if (s == "%ns") want = abbreviated(c.ns);
		else if (s == "%LEVEL") want = UPPER[(int) c.level];
		else if (s == "%level") want = LOWER[(int) c.level];
		else if (s == "%filename") { if (c.location) { want = c.location; size_t slash = want.rfind('/'); if (slash != std::string::npos) want = want.substr(slash + 1); } }
		else if (s == "%filepath") want = c.location ? c.location : "";
		else if (s == "%thread") { want = System::ThreadName::getName(); if (want.empty()) { std::ostringstream o; o << std::this_thread::get_id(); want = o.str(); } }
		else if (s == "%%") want = "%";
		else if (s == "%\"") want = "\"";
		if (line.compare(pos, want.size(), want) != 0) return s + " is not " + vf::show(want, 60) + " at " + std::to_string(pos);
		pos += want.size();
	}
	if (line.compare(pos, std::string::npos, "\n") != 0) return "the line does not end after its last item, at " + std::to_string(pos);
	return "";
}

std::string randomFormatText(vf::Rng & r, size_t n) {
	static const char alphabet[] = "abcmnsHYdSMylevgthr0123456789 -_[]{}@#\\()<>|:;,.!?*+/";
	std::string o;
	for (size_t m = 0; m < n; ++m) o += alphabet[r.below(sizeof alphabet - 1)];
	return o;
}
std::string randomFormat(vf::Rng & r) {
	std::string f = "[";
	for (size_t m = r.below(7); m-- > 0;) {
		if (r.chance(1, 2)) f += randomFormatText(r, r.below(5));
		if (r.chance(5, 6)) f += r.of<const char *>({ "%message", "%namespace", "%thread", "%LEVEL", "%level", "%filename", "%filepath", "%ns", "%Y", "%y", "%m", "%d", "%H", "%M", "%S", "%%", "%\"", "%message" });
		else f += r.of<const char *>({ "%q", "%", "%x", "%mess", "%name", "%T", "%Lev", "%%%" });
	}
	if (r.chance(5, 6)) f += " %message";
	return f + "]";
}

////////////////////////////////////// P16 ///////////////////////////////////////

std::string randomText(vf::Rng & r, bool nul) {
	std::string o;
	for (size_t m = r.chance(1, 60) ? 200 + r.below(5000) : r.below(12); m-- > 0;) {
		switch (r.below(12)) {
			case 0: o += r.of<const char *>({ "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }); break;
			case 1: o += (char) (nul ? r.below(256) : 1 + r.below(255)); if (o.back() == '{') o.back() = '.'; break;
			case 2: o += '}'; break;
			case 3: o += '{'; o += r.of<char>({ 'x', ' ', '0', ':', '\n', '"' }); break;
			case 4: o += '%'; break;
			case 5: o += r.of<const char *>({ "%message", "%ns", "\\", "\n", "\t", "????" }); break;
			default: o += (char) (' ' + r.below(91)); // up to 'z'
		}
	}
	return o;
}

// A text as a value of the property language, with escapes and line continuations.
std::string propertyValue(vf::Rng & r, const std::string & v) {
	std::string o;
	bool first = true;
	const bool playful = r.chance(1, 2);
	for (size_t m = 0; m < v.size(); ++m) {
		const char c = v[m];
		bool esc = c == '\\' || c == '{' || c == '}' || c == '@';
		if (first && strchr(" \t:=#!", c)) esc = true;
		if (!esc && playful && (unsigned char) c < 128 && r.chance(1, 12)) { esc = true; vf::count("superfluous escapes"); }
		if (playful && !first && c != ' ' && c != '\t' && (unsigned char) c < 128 && r.chance(1, 25)) { o += r.of<const char *>({ "\\\n", "\\\n  ", "\\\n\t " }); vf::count("line continuations"); }
		if (esc) o += '\\';
		o += c;
		first = false;
	}
	return o;
}

vf::Mode render("render", [] (int64_t c, vf::Rng & r) {
	registerStreams();
	const std::string format = randomFormat(r);
	const bool quoted = r.chance(1, 3);
	const std::string ns = r.of<const char *>({ ".", "a", "alpha.beta", "x.y.z", "com.borasoftware.misc.Deep_1" });
	std::string text = ns + " {\n  level = trace\n  stream = cap:render\n  flush = " + (r.chance(1, 2) ? "true" : "false") + "\n  format = " + propertyValue(r, (quoted ? "\"" : "") + format + (quoted ? "\"" : "")) + "\n}\n";
	{
		Capture cap;
		Logger::configure(text);
	}
	Logger & l = Logger::getLogger(ns);
	std::vector<Event> events;
	record = &events;
	const std::string nsName = ns == "." ? "" : ns;
	std::string name;
	if (r.chance(1, 3)) name = r.of<const char *>({ "main", "worker 1", "x" });
	System::ThreadName::setName(name);

	for (int m = 0; m < 14; ++m) {
		const std::string where = r.of<const char *>({ "main.cpp:1", "/a/b/c.cpp:123", "dir/x:9", "/x.hpp:77", "a b/c d.cpp:2", "../q.cpp:0" });
		SourceCodeLocation loc(where.c_str());
		Form f = randomForm(r, &loc);
		LoggingLevel lv = LEVELS[r.below(5)];
		Context x;
		x.ns = nsName;
		x.level = lv;
		x.location = f.loc ? where.c_str() : nullptr;
		size_t parameterCount = 0, placeholders = 0;
		std::vector<std::string> pieces { "" }; // literal text between the placeholders
		std::string tmpl;
		bool wild = false;
		std::vector<std::string> printed;

		if (f.function) {
			tmpl = randomText(r, true) + (r.chance(1, 2) ? "{}" : "") + randomText(r, true);
			x.message = tmpl;
		} else {
			placeholders = r.below(7);
			for (size_t k = 0; k < placeholders; ++k) { pieces.back() += r.chance(1, 3) ? "" : randomText(r, f.view); pieces.emplace_back(); }
			pieces.back() = randomText(r, f.view);
			if (r.chance(1, 10)) pieces.back() += '{';
			for (size_t k = 0; k < pieces.size(); ++k) { if (k) tmpl += "{}"; tmpl += pieces[k]; }
			parameterCount = r.chance(3, 4) ? std::min<size_t>(placeholders, 5) : r.below(6);
		}

		clock_gettime(CLOCK_REALTIME, &x.before);
		if (f.function) {
			int calls = 0;
			callFunction(l, lv, f, [&] { ++calls; return tmpl; });
			vf::check(calls == 1, "P16/function-calls", "the message function was called " + std::to_string(calls) + " times");
			vf::count("function messages");
		} else if (parameterCount == 0) {
			callForm(l, lv, f, tmpl);
		} else if (r.chance(1, 2)) { // texts
			std::vector<std::string> p(5);
			for (auto & t : p) t = r.chance(1, 8) ? "" : r.chance(1, 40) ? std::string(3000 + r.below(20000), 'L') : randomText(r, true) + r.of<const char *>({ "", "{}", "{" });
			printed.assign(p.begin(), p.begin() + parameterCount);
			switch (parameterCount) {
				case 1: callForm(l, lv, f, tmpl, p[0]); break;
				case 2: callForm(l, lv, f, tmpl, p[0], p[1]); break;
				case 3: callForm(l, lv, f, tmpl, p[0], p[1], p[2]); break;
				case 4: callForm(l, lv, f, tmpl, p[0], p[1], p[2], p[3]); break;
				default: callForm(l, lv, f, tmpl, p[0], p[1], p[2], p[3], p[4]); break;
			}
		} else { // mixed types
			int i = (int) r.next();
			unsigned long long u = r.next();
			bool b = r.chance(1, 2);
			std::string s = randomText(r, true);
			double d = (double) r.range(-4000, 4000) / 4;
			std::ostringstream o;
			o << d;
			printed = { std::to_string(i), s, b ? "true" : "false", std::to_string(u), o.str() };
			printed.resize(parameterCount);
			switch (parameterCount) {
				case 1: callForm(l, lv, f, tmpl, i); break;
				case 2: callForm(l, lv, f, tmpl, i, s); break;
				case 3: callForm(l, lv, f, tmpl, i, s, b); break;
				case 4: callForm(l, lv, f, tmpl, i, s, b, u); break;
				default: callForm(l, lv, f, tmpl, i, s, b, u, d); break;
			}
		}
		clock_gettime(CLOCK_REALTIME, &x.after);

		std::function<bool (const std::string &, size_t &)> match;
		if (!f.function && parameterCount < placeholders && parameterCount == 0) {
			x.message = tmpl; // without parameters, the text is logged as it is
		} else if (!f.function && parameterCount < placeholders) {
			// Placeholders without a parameter: whatever stands there, it is not long, and the rest is intact.
			vf::count("messages with missing parameters");
			wild = true;
			match = [&] (const std::string & line, size_t & pos) {
				std::string head = pieces[0];
				for (size_t k = 0; k < parameterCount; ++k) head += printed[k] + pieces[k + 1];
				if (line.compare(pos, head.size(), head) != 0) return false;
				pos += head.size();
				for (size_t k = parameterCount; k < placeholders; ++k) {
					size_t at = std::string::npos;
					for (const char * filler : { "????", "{}", "" })
						if (line.compare(pos, strlen(filler), filler) == 0 && line.compare(pos + strlen(filler), pieces[k + 1].size(), pieces[k + 1]) == 0) { at = pos + strlen(filler); break; }
					if (at == std::string::npos) return false;
					pos = at + pieces[k + 1].size();
				}
				return true;
			};
		} else if (!f.function) {
			x.message = pieces[0];
			for (size_t k = 0; k < placeholders; ++k) x.message += printed[k] + pieces[k + 1];
			if (parameterCount > placeholders) vf::count("messages with too many parameters");
		}

		std::vector<const Event *> lines;
		for (auto & e : events) if (!e.flush) lines.push_back(&e);
		if (lines.size() != 1) {
			vf::violation("P16/lines", "one message gave " + std::to_string(lines.size()) + " lines");
		} else {
			std::string wrong = matchLine(lines[0]->text, format, x, match);
			vf::check(wrong.empty(), wild ? "P16/missing-parameters" : "P16/text", wrong + ": format " + vf::show(format) + " template " + vf::show(tmpl) + " with " + std::to_string(parameterCount) + " parameters, line " + vf::show(lines[0]->text, 300));
		}
		events.clear();
		vf::count("messages");
		if (f.loc) vf::count("messages with location");
		vf::distinct(vf::mix(vf::hashStr(format), vf::mix(vf::hashStr(tmpl), vf::mix(parameterCount, (uint64_t) (f.viaLog * 8 + f.view * 4 + f.function * 2 + (f.loc != nullptr))))));
		if (m == 0 && c < 3) vf::sample("format " + format + " template " + vf::show(tmpl) + " parameters " + std::to_string(parameterCount));
	}
	record = nullptr;
	System::ThreadName::setName("");
});

////////////////////////////////////// P15 ///////////////////////////////////////

using Options = std::map<std::string, std::string>;
using Configuration = std::map<std::string, Options>; // by namespace, "" is the root

bool isStream(const std::string & key) { return key.size() >= 6 && key.compare(key.size() - 6, 6, "stream") == 0; }
bool hasStream(const Options & o) { return std::any_of(o.begin(), o.end(), [] (auto & p) { return isStream(p.first); }); }
std::string parentOf(const std::string & ns) { size_t dot = ns.rfind('.'); return dot == std::string::npos ? "" : ns.substr(0, dot); }
std::string unquoted(std::string s) {
	if (!s.empty() && s[0] == '"') s = s.substr(1);
	if (!s.empty() && s.back() == '"') s.pop_back();
	return s;
}
const char * const DEFAULT_FORMAT = "%Y-%m-%d %H:%M:%S [%thread] %LEVEL - %namespace - %message";

// The options in force for a namespace: those of the nearest namespace that gives them; the stream options are inherited together.
Options effective(const Configuration & conf, std::string ns) {
	Options o;
	for (;;) {
		Options here;
		auto i = conf.find(ns);
		if (i != conf.end()) here = i->second;
		if (ns.empty()) {
			Options def { { "level", "info" }, { "format", DEFAULT_FORMAT }, { "warn-stream", "stdout" }, { "error-stream", "stderr" } };
			if (hasStream(here)) { def.erase("warn-stream"); def.erase("error-stream"); }
			here.insert(def.begin(), def.end());
		}
		const bool had = hasStream(o);
		for (auto & p : here) if (!(had && isStream(p.first))) o.insert(p);
		if (ns.empty()) return o;
		ns = parentOf(ns);
	}
}
std::string streamOf(const Options & o, LoggingLevel lv) {
	auto get = [&] (const std::string & k) { auto i = o.find(k); return i == o.end() ? std::string() : unquoted(i->second); };
	std::string s = get(std::string(LOWER[(int) lv]) + "-stream");
	if (!s.empty()) return s;
	s = get("stream");
	if (!s.empty()) return s;
	for (int m = (int) lv - 1; m >= 0; --m) { s = get(std::string(LOWER[m]) + "-stream"); if (!s.empty()) return s; } // towards error
	for (int m = (int) lv + 1; m < 5; ++m) { s = get(std::string(LOWER[m]) + "-stream"); if (!s.empty()) return s; } // then towards trace
	return "stdout";
}
int levelOf(const Options & o) {
	std::string s = o.at("level");
	for (auto & ch : s) ch = (char) tolower(ch);
	if (s == "none") return -1;
	for (int m = 0; m < 5; ++m) if (s == LOWER[m]) return m;
	return (int) LoggingLevel::INFO;
}
bool flushOf(const Options & o) {
	auto i = o.find("flush");
	if (i == o.end()) return true;
	std::string s = i->second;
	for (auto & ch : s) ch = (char) tolower(ch);
	return s != "false";
}

std::string randomCase(vf::Rng & r, std::string s) {
	if (r.chance(1, 2)) return s;
	for (auto & ch : s) if (r.chance(1, 2)) ch = (char) toupper(ch);
	return s;
}
std::string randomNamespace(vf::Rng & r) {
	std::string o;
	for (size_t m = 1 + r.below(4); m-- > 0;) o += (o.empty() ? "" : ".") + std::string(r.of<const char *>({ "a", "b", "com", "comm" }));
	return o;
}
Options randomOptions(vf::Rng & r) {
	Options o;
	if (r.chance(1, 2)) o["level"] = r.chance(1, 12) ? "loud" : randomCase(r, r.of<const char *>({ "trace", "debug", "info", "warn", "error", "none", "trace" }));
	if (r.chance(1, 3)) o["format"] = r.of<const char *>({ "A %ns %LEVEL %message", "\"B %namespace %level %message\"", "C %message", "%S %message", "D (%thread) %namespace %message" });
	if (r.chance(1, 4)) o["flush"] = randomCase(r, r.of<const char *>({ "true", "false", "false" }));
	if (r.chance(1, 2)) for (size_t m = 1 + r.below(3); m-- > 0;) {
		std::string key = r.of<const char *>({ "stream", "stream", "trace-stream", "debug-stream", "info-stream", "warn-stream", "error-stream" });
		std::string v = r.chance(1, 8) ? "stdout" : r.chance(1, 8) ? "stderr" : r.chance(1, 8) ? "file://" + vf::st().scratch + "/log-" + std::to_string(r.below(3)) + ".txt" : "cap:" + std::to_string(r.below(6));
		o[key] = r.chance(1, 6) ? "\"" + v + "\"" : v;
	}
	return o;
}

struct Written { std::string text; std::map<std::string, std::string> placeholders; };

Written writeConfiguration(vf::Rng & r, const Configuration & conf) {
	Written w;
	std::vector<std::string> blocks;
	auto block = [&] (const std::string & ns, const Options & o) {
		std::string b = r.of<const char *>({ "", "  ", "\t" }) + (ns.empty() ? std::string(".") : ns) + r.of<const char *>({ " {\n", "  {\n" });
		std::vector<std::pair<std::string, std::string>> items(o.begin(), o.end());
		for (size_t m = items.size(); m > 1; --m) std::swap(items[m - 1], items[r.below(m)]);
		for (auto & p : items) {
			std::string v = p.second;
			if (r.chance(1, 12)) { std::string name = "ph" + std::to_string(w.placeholders.size()); w.placeholders[name] = v; v = "${" + name + "}"; }
			b += r.of<const char *>({ "  ", "\t", "" }) + p.first + r.of<const char *>({ " = ", "=", " : ", "   =  " }) + v + r.of<const char *>({ "\n", "\n", "\n\n" });
		}
		blocks.push_back(b + "}" + r.of<const char *>({ "\n", "\n\n", "\n# a comment\n" }));
	};
	for (auto & e : conf) {
		if (e.second.size() > 1 && r.chance(1, 6)) { // in two parts
			Options one, two;
			for (auto & p : e.second) (r.chance(1, 2) ? one : two).insert(p);
			block(e.first, one);
			block(e.first, two);
		} else {
			block(e.first, e.second);
		}
	}
	for (size_t m = blocks.size(); m > 1; --m) std::swap(blocks[m - 1], blocks[r.below(m)]);
	std::string included;
	for (auto & b : blocks) (r.chance(1, 10) && w.placeholders.empty() ? included : w.text) += b;
	if (!included.empty()) {
		static int n = 0;
		std::string path = vf::st().scratch + "/inc" + std::to_string(n++ % 8) + ".hconf";
		writeFile(path, included);
		w.text = r.chance(1, 2) ? "@file://" + path + "\n" + w.text : w.text + "@file://" + path + "\n";
		vf::count("included files");
	}
	return w;
}

std::set<std::string> knownNamespaces;

void checkLogger(vf::Rng & r, const std::string & ns, const Configuration & conf, const char * when, const std::string & text) {
	Options o = effective(conf, ns);
	static std::map<std::string, Logger *> held; // references obtained once remain valid for ever
	Logger & l = Logger::getLogger(ns.empty() && r.chance(1, 2) ? "." : ns);
	auto & h = held[ns];
	if (!h) h = &l;
	knownNamespaces.insert(ns);
	auto say = [&] (const std::string & s) { return s + " (" + when + ", logger '" + ns + "'), configuration:\n" + text; };
	if (!vf::check(h == &l, "P15/same-logger", say("a second request gave another logger"))) h = &l;
	if (ns.empty()) vf::check(&Logger::globalLogger() == &l, "P15/same-logger", say("the global logger is another one"));
	const int level = levelOf(o);
	vf::check((int) l.getLevel() == level, "P15/level", say("the level is " + std::to_string((int) l.getLevel()) + ", expected " + std::to_string(level)));
	vf::check(l.traceEnabled() == (level >= 4) && l.debugEnabled() == (level >= 3) && l.infoEnabled() == (level >= 2) && l.warnEnabled() == (level >= 1) && l.errorEnabled() == (level >= 0), "P15/enabled", say("the enabled queries do not agree with the level"));
	vf::check(l.flushes() == flushOf(o), "P15/flush", say("flushes() is " + std::to_string(l.flushes())));
	vf::check(l.getNamespace() == ns, "P15/namespace", say("getNamespace() is " + l.getNamespace()));
	std::string expectedConf = ns + " {\n";
	for (auto & p : o) expectedConf += "    " + p.first + " = " + p.second + "\n";
	expectedConf += "}\n";
	vf::check(l.getConfiguration() == expectedConf, "P15/configuration-text", say("getConfiguration() is " + vf::show(l.getConfiguration(), 400) + ", expected " + vf::show(expectedConf, 400)));

	for (auto lv : LEVELS) {
		static uint64_t serial = 0;
		Context x;
		x.ns = ns;
		x.level = lv;
		x.location = nullptr;
		x.message = "message-" + std::to_string(++serial);
		const std::string stream = streamOf(o, lv);
		const bool file = stream.compare(0, 5, "file:") == 0;
		std::string path = file ? stream.substr(7) : "", before;
		std::map<std::string, std::string> got;
		std::vector<Event> events;
		record = &events;
		std::string beforeFile = file ? readFile(path) : "";
		clock_gettime(CLOCK_REALTIME, &x.before);
		int calls = 0;
		{
			Capture cap;
			Form f = randomForm(r, nullptr);
			if (f.function) callFunction(l, lv, f, [&] { ++calls; return x.message; });
			else if (r.chance(1, 2)) { calls = -1; callForm(l, lv, f, x.message); }
			else { calls = -1; callForm(l, lv, f, "message-{}", serial); }
			if (file && !flushOf(o)) l.flush();
			if (!cap.out.str().empty()) got["stdout"] = cap.out.str();
			if (!cap.err.str().empty()) got["stderr"] = cap.err.str();
		}
		clock_gettime(CLOCK_REALTIME, &x.after);
		record = nullptr;
		int flushes = 0;
		for (auto & e : events) if (e.flush) ++flushes; else got[*e.stream] += e.text;
		if (file) { std::string after = readFile(path); if (after.size() > beforeFile.size()) got[stream] = after.substr(beforeFile.size()); }
		const bool enabled = level >= (int) lv;
		const std::string what = std::string("level ") + LOWER[(int) lv] + " ";
		if (calls >= 0) vf::check(calls == (enabled ? 1 : 0), "P15/lazy-message", say(what + "called the message function " + std::to_string(calls) + " times"));
		if (!enabled) {
			vf::check(got.empty(), "P15/disabled", say(what + "is disabled but " + (got.empty() ? std::string() : got.begin()->first) + " got a message"));
			vf::count("disabled messages");
			continue;
		}
		vf::count("enabled messages");
		if (!vf::check(got.size() == 1 && got.begin()->first == stream, "P15/stream", say(what + "is expected on " + stream + ", but it is on " + (got.empty() ? std::string("nothing") : got.begin()->first) + (got.size() > 1 ? " and others" : "")))) continue;
		std::string wrong = matchLine(got[stream], unquoted(o.at("format")), x);
		vf::check(wrong.empty(), "P15/format", say(what + wrong + ", line " + vf::show(got[stream])));
		if (stream.compare(0, 4, "cap:") == 0) { vf::check(flushes == (flushOf(o) ? 1 : 0), "P15/flushes", say(what + "flushed " + std::to_string(flushes) + " times")); vf::count("recorded streams"); }
		if (file) vf::count("file streams");
		if (stream[0] == 's') vf::count("standard streams");
	}
	vf::count("loggers checked");
}

vf::Mode tree("tree", [] (int64_t c, vf::Rng & r) {
	registerStreams();
	static Configuration previous;
	Configuration conf;
	const int kind = (int) r.below(12);
	if (kind > 0) for (size_t m = 1 + r.below(6); m-- > 0;) { Options o = randomOptions(r); std::string ns = r.chance(1, 4) ? "" : randomNamespace(r); for (auto & p : o) conf[ns][p.first] = p.second; }
	std::string text;

	if (kind == 0) { // the default configuration
		Capture cap;
		if (r.chance(1, 2)) Logger::resetConfiguration(); else Logger::configure(std::string());
		vf::count("default configurations");
	} else {
		Written w = writeConfiguration(r, conf);
		text = w.text;
		Capture cap;
		try {
			Logger::configure(w.text, w.placeholders);
		} catch (const std::exception & e) {
			vf::violation("P15/refused", std::string("a configuration was refused: ") + e.what() + "\n" + text);
			Logger::configure(std::string());
			conf.clear();
		}
		vf::count("configurations");
		if (!w.placeholders.empty()) vf::count("configurations with placeholders");
	}

	// Loggers known before and new ones.
	std::vector<std::string> names;
	if (!knownNamespaces.empty()) for (size_t m = r.below(5); m-- > 0;) names.push_back(*std::next(knownNamespaces.begin(), (long) r.below(knownNamespaces.size())));
	for (size_t m = 1 + r.below(4); m-- > 0;) names.push_back(randomNamespace(r));
	for (auto & e : conf) if (r.chance(1, 2)) names.push_back(e.first);
	if (r.chance(1, 2)) names.push_back("");
	for (size_t m = names.size(); m > 1; --m) std::swap(names[m - 1], names[r.below(m)]);
	for (auto & ns : names) checkLogger(r, ns, conf, "after configuration", text);
	vf::distinct(text);
	if (c < 3) vf::sample(text);

	if (r.chance(1, 2)) { // a configuration that is refused
		std::string bad;
		switch (r.below(4)) {
			case 0: bad = text + "zz {\n  level = trace\n"; break;
			case 1: bad = ". {\n  level = trace\n  stream = file://" + vf::st().scratch + "\n}\n"; break; // a directory
			case 2: bad = ". {\n  level = none\n  stream = file:///dev/null/x/y.log\n}\n"; break; // not a directory
			default: bad = "a {\n  level = error\n  stream = cap:bad\n}\n@file://" + vf::st().scratch + "/does-not-exist.hconf\n"; break;
		}
		bool refused = false;
		{
			Capture cap;
			try { Logger::configure(bad); } catch (const std::exception &) { refused = true; }
		}
		if (refused) {
			for (auto & ns : names) checkLogger(r, ns, conf, "after a refused configuration", text + "\nrefused:\n" + bad);
			vf::count("refused configurations");
		} else {
			vf::violation("P15/not-refused", "this configuration was not refused:\n" + bad);
		}
	}
});

// The configuration is locked, in a child process of its own.
vf::Mode lockMode("lock", [] (int64_t c, vf::Rng & r) {
	registerStreams();
	const bool loud = r.chance(1, 2), textConf = r.chance(2, 3);
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		int bad = 0;
		Logger::configure("a {\n level = debug\n stream = cap:one\n}\n");
		Logger & l = Logger::getLogger("a.b");
		Logger::lockConfiguration(loud);
		if (r.chance(1, 4)) Logger::lockConfiguration(false); // does not make it quiet again
		for (int m = 0; m < 3; ++m) {
			bool threw = false;
			try {
				if (textConf) Logger::configure("a {\n level = none\n stream = cap:two\n}\n"); else Logger::resetConfiguration();
			} catch (const Exception::LoggingConfigurationException &) { threw = true; }
			if (threw != loud) bad |= 1;
			if (l.getLevel() != LoggingLevel::DEBUG || Logger::getLogger("a.c").getLevel() != LoggingLevel::DEBUG || Logger::getLogger("q").getLevel() != LoggingLevel::INFO) bad |= 2;
			std::vector<Event> events;
			record = &events;
			l.debug("x");
			record = nullptr;
			if (events.empty() || *events[0].stream != "cap:one") bad |= 4;
		}
		_exit(bad);
	}
	int status = 0;
	waitpid(pid, &status, 0);
	if (!WIFEXITED(status)) vf::violation("P15/lock-crash", "the process with a locked configuration ended abnormally");
	else {
		int bad = WEXITSTATUS(status);
		vf::check(!(bad & 1), "P15/lock-exception", loud ? "a reconfiguration after lockConfiguration(true) did not throw" : "a reconfiguration after lockConfiguration() threw");
		vf::check(!(bad & 2), "P15/lock-level", "a locked configuration changed");
		vf::check(!(bad & 4), "P15/lock-stream", "a locked stream configuration changed");
		vf::check(bad < 8, "P15/lock-crash", "exit code " + std::to_string(bad));
	}
	vf::count("locked configurations");
	vf::distinct((uint64_t) (loud * 2 + textConf));
});

///////////////////////////////////// Programs ///////////////////////////////////

// A message line that can be recognised anywhere.
std::string body(int thread, int seq, size_t pad) { return "<" + std::to_string(thread) + ":" + std::to_string(seq) + ":" + std::string(pad, (char) ('a' + (thread * 7 + seq) % 26)) + ">"; }
// Parse "<t:s:pad>" and verify the padding; false if it is not whole.
bool parseBody(const std::string & s, int & t, int & q) {
	if (s.size() < 5 || s[0] != '<' || s.back() != '>') return false;
	char * e;
	t = (int) strtol(s.c_str() + 1, &e, 10);
	if (*e != ':') return false;
	q = (int) strtol(e + 1, &e, 10);
	if (*e != ':') return false;
	std::string pad((const char *) e + 1, s.c_str() + s.size() - 1);
	return pad == std::string(pad.size(), (char) ('a' + (t * 7 + q) % 26));
}
size_t padOf(int t, int q) { uint64_t h = vf::mix((uint64_t) t, (uint64_t) q); return h % 17 == 0 ? 300 + h % 9000 : h % 40; }

// The child program: threads that log from their beginning, in a process whose logging system is not yet configured.
// Environment: VF_THREADS, VF_MESSAGES, VF_CONF (text to configure, by a thread), VF_EXIT.
vf::Mode childMode("child", [] (int64_t c, vf::Rng & r) {
	const int threads = atoi(getenv("VF_THREADS")), messages = atoi(getenv("VF_MESSAGES"));
	std::vector<std::thread> ts;
	std::atomic<int> ready { 0 };
	for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] {
		++ready;
		while (ready.load() < threads) std::this_thread::yield();
		Logger & l = Logger::getLogger(t % 2 ? "prog.odd" : "prog.even");
		for (int q = 0; q < messages; ++q) {
			std::string b = body(t, q, padOf(t, q));
			switch (q % 4) {
				case 0: l.info(b); break;
				case 1: l.warn("{}", b); break;
				case 2: l.error(std::string_view(b)); break;
				default: l.debug("{}", b); l.info([&] { return b; }); break;
			}
		}
	});
	for (auto & t : ts) t.join();
	if (atoi(getenv("VF_EXIT"))) exit(0);
	_exit(0);
});

vf::Mode programs("programs", [] (int64_t c, vf::Rng & r) {
	const std::string dir = vf::st().scratch + "/prog" + std::to_string(c);
	mkdir(dir.c_str(), 0755);
	char self[4096];
	ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
	self[n] = 0;
	const std::string exe = dir + "/program";
	if (link(self, exe.c_str()) != 0) { writeFile(exe, readFile(self)); chmod(exe.c_str(), 0755); }
	const int kind = (int) r.below(5); // 0 no file, 1 valid, 2 valid with a file stream, 3 invalid, 4 cannot be opened
	const int threads = 1 + (int) r.below(5), messages = 4 + (int) r.below(40);
	const bool flush = kind == 3 || kind == 4 || r.chance(2, 3), normalExit = !flush || r.chance(1, 2);
	std::string conf;
	if (kind == 1) conf = std::string(". {\n level = info\n stream = stdout\n error-stream = stdout\n format = L %message\n flush = ") + (flush ? "true" : "false") + "\n}\n";
	if (kind == 2) conf = "prog {\n stream = file://" + dir + "/sub/${executable}.log\n format = L %message\n flush = " + (flush ? "true" : "false") + "\n}\nprog.odd {\n level = debug\n}\n";
	if (kind == 3) conf = "prog {\n level = none\n stream = stderr\n";
	if (kind == 4) conf = "prog {\n level = none\n stream = file:///dev/null/x.log\n}\n";
	if (kind) writeFile(dir + "/balau-logging.hconf", conf);
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		setenv("VF_THREADS", std::to_string(threads).c_str(), 1);
		setenv("VF_MESSAGES", std::to_string(messages).c_str(), 1);
		setenv("VF_EXIT", normalExit ? "1" : "0", 1);
		setenv("TSAN_OPTIONS", "exitcode=66:halt_on_error=1", 1);
		int o = open((dir + "/out").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644), e = open((dir + "/err").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
		dup2(o, 1);
		dup2(e, 2);
		execl(exe.c_str(), exe.c_str(), "--mode", "child", "--seed", "1", "--from", "0", "--to", "1", "--out", (dir + "/result").c_str(), nullptr);
		_exit(120);
	}
	int status = 0;
	waitpid(pid, &status, 0);
	const std::string out = readFile(dir + "/out"), err = readFile(dir + "/err"), file = readFile(dir + "/sub/program.log");
	const std::string what = "kind " + std::to_string(kind) + ", " + std::to_string(threads) + " threads: ";
	if (!vf::check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "P14/program-crash", what + "the program ended with status " + std::to_string(status) + ": " + vf::show(err, 3000))) return;

	// What each sink is to receive, by thread and sequence number.
	const bool fromFile = kind == 1 || kind == 2;
	std::map<std::string, std::map<int, std::vector<int>>> want, got;
	for (int t = 0; t < threads; ++t) for (int q = 0; q < messages; ++q) {
		const bool isError = q % 4 == 2;
		std::string sink = kind == 2 ? "file" : kind == 1 ? "out" : isError ? "err" : "out";
		if (kind == 2 && t % 2 && q % 4 == 3) want[sink][t].push_back(q); // the debug message too
		want[sink][t].push_back(q);
	}
	uint64_t interleaving = 7;
	for (auto & s : { std::make_pair(std::string("out"), &out), std::make_pair(std::string("err"), &err), std::make_pair(std::string("file"), &file) }) {
		size_t at = 0;
		while (at < s.second->size()) {
			size_t nl = s.second->find('\n', at);
			std::string line = s.second->substr(at, nl == std::string::npos ? std::string::npos : nl - at);
			at = nl == std::string::npos ? s.second->size() : nl + 1;
			if (line.compare(0, 5, "FATAL") == 0 || line.compare(0, 10, "Attempting") == 0 || line.empty()) continue; // messages of the logging system itself
			if (s.first == "err" && (kind == 3 || kind == 4) && line.find(" - prog.") == std::string::npos) continue; // the report of the refused configuration
			size_t b = line.find('<');
			int t, q;
			if (b == std::string::npos || !parseBody(line.substr(b), t, q) || t < 0 || t >= threads) { vf::violation("P14/program-line", what + "a line is not whole: " + vf::show(line)); continue; }
			std::string head = line.substr(0, b);
			if (fromFile) vf::check(head == "L ", "P14/program-format", what + "a line is not in the format of the file: " + vf::show(line));
			else vf::check(head.find(t % 2 ? " - prog.odd - " : " - prog.even - ") != std::string::npos && head.find(q % 4 == 1 ? "WARN" : q % 4 == 2 ? "ERROR" : "INFO") != std::string::npos, "P14/program-format", what + "a line is not in the default format: " + vf::show(line));
			got[s.first][t].push_back(q);
			interleaving = vf::mix(interleaving, (uint64_t) t);
			vf::count("program lines");
		}
	}
	for (auto & w : want) for (auto & t : w.second) {
		auto & g = got[w.first][t.first];
		if (g == t.second) continue;
		size_t m = 0;
		while (m < g.size() && m < t.second.size() && g[m] == t.second[m]) ++m;
		vf::violation("P14/program-messages", what + "thread " + std::to_string(t.first) + " on " + w.first + ": " + std::to_string(g.size()) + " messages of " + std::to_string(t.second.size()) + ", the first difference at position " + std::to_string(m));
	}
	for (auto & g : got) for (auto & t : g.second) if (!want.count(g.first) || !want[g.first].count(t.first)) vf::violation("P14/program-sink", what + "messages on " + g.first + " which does not belong to the logger");
	if (kind == 3 || kind == 4) vf::check(!err.empty() && err.find("FATAL") != std::string::npos, "P14/program-report", "nothing on stderr tells that the configuration file is invalid");
	vf::count("programs");
	vf::count("programs of kind " + std::to_string(kind));
	vf::distinct(interleaving);
	for (auto f : { "/out", "/err", "/result", "/result.prog", "/result.distinct", "/balau-logging.hconf", "/program", "/sub/program.log" }) unlink((dir + f).c_str());
	rmdir((dir + "/sub").c_str());
	rmdir(dir.c_str());
});

////////////////////////////////////// P14 ///////////////////////////////////////

// Threads log while others reconfigure between configurations, obtain loggers and flush.
vf::Mode concurrent("concurrent", [] (int64_t c, vf::Rng & r) {
	registerStreams();
	static int64_t epoch = 0;
	++epoch;
	const std::string root = "e" + std::to_string(epoch % 40) + "x" + std::to_string(c); // loggers of this case only
	const std::string file = vf::st().scratch + "/concurrent-" + std::to_string(epoch % 4) + ".log";
	// Every configuration of the case: level of info or more for 'root', a sink, a format of its own.
	struct Conf { std::string text, sink, mark; bool debug; };
	std::vector<Conf> confs;
	const int n = 2 + (int) r.below(3);
	const bool always = r.chance(1, 2); // debug is enabled in all of them
	const bool files = r.chance(1, 4);
	for (int m = 0; m < n; ++m) {
		Conf k;
		k.debug = always || r.chance(1, 2);
		k.sink = files && m == 0 ? "file://" + file : "cap:" + std::to_string(epoch) + "-" + std::to_string(r.below(4));
		k.mark = "F" + std::to_string(m);
		k.text = root + " {\n level = " + (k.debug ? "debug" : "info") + "\n stream = " + k.sink + "\n format = " + k.mark + " %level %namespace %message " + k.mark + "\n flush = " + (r.chance(1, 2) ? "true" : "false") + "\n}\n"
			+ (r.chance(1, 2) ? root + ".sub {\n level = " + (k.debug ? "debug" : "info") + "\n}\n" : "");
		confs.push_back(k);
	}
	if (files) { std::ofstream truncated(file, std::ios::trunc); } // streams are kept: the file remains the same
	{ Capture cap; Logger::configure(confs[0].text); }
	const std::string names[] = { root, root + ".sub", root + ".sub.deep", root + ".other" };
	const int threads = 2 + (int) r.below(4), messages = 20 + (int) r.below(vf::st().thorough ? 300 : 120);
	std::vector<std::vector<Event>> records((size_t) threads + 4);
	std::vector<std::thread> ts;
	std::vector<std::array<std::atomic<Logger *>, 4>> seen((size_t) threads);
	std::atomic<int> ready { 0 }, running { threads };
	inject::seed(r.next());
	inject::intensity = (unsigned) r.of<int>({ 2, 4, 16 });
	const uint64_t seed = r.next();
	const int others = 1 + (int) r.below(3);

	inject::enabled = true;
	for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] {
		vf::Rng q(vf::mix(seed, (uint64_t) t));
		record = &records[(size_t) t];
		++ready;
		while (ready.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
		std::array<Logger *, 4> mine {};
		for (int m = 0; m < messages; ++m) {
			size_t k = q.below(4);
			if (!mine[k] || q.chance(1, 30)) {
				Logger & l = Logger::getLogger(names[k]);
				if (mine[k] && mine[k] != &l) vf::violation("P14/same-logger", "a second request gave another logger");
				mine[k] = &l;
			}
			Logger & l = *mine[k];
			std::string b = body(t, m, padOf(t, m));
			// Numbers divisible by three are debug messages, others are info or more.
			if (m % 3 == 0) { if (q.chance(1, 2)) l.debug("{}", b); else l.debug(b); }
			else switch (q.below(4)) {
				case 0: l.info(b); break;
				case 1: l.warn("{}", b); break;
				case 2: l.error(std::string_view(b)); break;
				default: l.info([&] { return b; }); break;
			}
			if (q.chance(1, 10)) l.trace("never {}", m);
			if (q.chance(1, 25)) l.flush();
			if (q.chance(1, 40)) l.getConfiguration();
			if (q.chance(1, 8)) inject::point();
		}
		for (size_t k = 0; k < 4; ++k) seen[(size_t) t][k].store(mine[k], std::memory_order_relaxed);
		record = nullptr;
		running.fetch_sub(1, std::memory_order_relaxed);
	});
	std::atomic<uint64_t> reconfigurations { 0 };
	for (int o = 0; o < others; ++o) ts.emplace_back([&, o] {
		vf::Rng q(vf::mix(seed, 1000 + (uint64_t) o));
		while (running.load(std::memory_order_relaxed) > 0) {
			switch (o ? q.below(5) : 0) {
				case 1: Logger::flushAll(); break;
				case 2: Logger::getLogger(root + ".new" + std::to_string(q.below(20))); break;
				case 3: Logger::registerLoggingStreamFactory("cap", newRecordingStream); break;
				default: Logger::configure(confs[q.below(confs.size())].text); ++reconfigurations; break;
			}
		}
	});
	for (auto & t : ts) t.join();
	inject::enabled = false;
	vf::count("reconfigurations", reconfigurations.load());

	// The history.
	Logger::flushAll();
	uint64_t order = 11;
	std::string fileText = files ? readFile(file) : "";
	std::vector<Event> fileEvents;
	static const std::string fileName = "file";
	for (size_t at = 0; at < fileText.size();) {
		size_t nl = fileText.find('\n', at);
		if (nl == std::string::npos) { vf::violation("P14/unbroken", "the file does not end with a whole line"); break; }
		fileEvents.push_back({ &fileName, false, fileText.substr(at, nl + 1 - at) });
		at = nl + 1;
	}
	std::vector<std::map<int, int>> times((size_t) threads);
	std::map<std::pair<std::string, int>, int> last;
	auto consume = [&] (const Event & e) {
		if (e.flush) return;
		const std::string & s = e.text;
		auto say = [&] (const std::string & problem) { return problem + ": " + vf::show(s, 200) + " on " + *e.stream; };
		size_t a = s.find('<'), b = s.rfind('>');
		int t = -1, q = -1;
		if (a == std::string::npos || b == std::string::npos || !parseBody(s.substr(a, b + 1 - a), t, q) || t < 0 || t >= threads || s.size() < 3 || s[0] != 'F') { vf::violation("P14/unbroken", say("a line is not whole")); return; }
		size_t k = (size_t) (s[1] - '0');
		if (k >= confs.size()) { vf::violation("P14/unbroken", say("a line has an unknown format")); return; }
		std::string tail = " " + confs[k].mark + "\n";
		std::string head = s.substr(0, a);
		vf::check(s.substr(b + 1) == tail, "P14/mixture", say("a line is a mixture of formats"));
		bool named = false;
		for (auto & nm : names) for (auto lv : { "debug", "info", "warn", "error" }) named |= head == confs[k].mark + " " + lv + " " + nm + " ";
		vf::check(named, "P14/head", say("a line has a wrong level or namespace"));
		vf::check((head.find(" debug ") != std::string::npos) == (q % 3 == 0), "P14/head", say("a line has another level than its message"));
		++times[(size_t) t][q];
		auto & l = last[{ *e.stream, t }];
		if (q + 1 <= l) vf::violation("P14/order", say("a message after a later one of the same thread"));
		l = q + 1;
		order = vf::mix(order, vf::mix((uint64_t) t, k));
		if (*e.stream == "file") vf::count("file lines");
		vf::count("lines");
	};
	for (auto & rec : records) for (auto & e : rec) {
		if (!e.flush && e.stream->compare(0, 4, "cap:") == 0) {
			bool known = false;
			for (auto & k : confs) known |= k.sink == *e.stream;
			vf::check(known, "P14/foreign-stream", "a message reached " + *e.stream + ", which no configuration names");
		}
		consume(e);
	}
	for (auto & e : fileEvents) consume(e);
	bool debugAlways = true;
	for (auto & k : confs) debugAlways &= k.debug;
	bool debugNever = true;
	for (auto & k : confs) debugNever &= !k.debug;
	for (int t = 0; t < threads; ++t) for (int q = 0; q < messages; ++q) {
		int got = times[(size_t) t].count(q) ? times[(size_t) t][q] : 0;
		if (q % 3 != 0 || debugAlways) {
			vf::check(got == 1, got ? "P14/duplicate" : "P14/lost", "message " + std::to_string(q) + " of thread " + std::to_string(t) + " was delivered " + std::to_string(got) + " times");
			vf::count("messages that must arrive");
		} else if (debugNever) {
			vf::check(got == 0, "P14/disabled", "message " + std::to_string(q) + " of a disabled level was delivered");
			vf::count("messages that must not arrive");
		} else {
			vf::check(got <= 1, "P14/duplicate", "message " + std::to_string(q) + " was delivered " + std::to_string(got) + " times");
			vf::count("messages that may arrive");
		}
	}
	for (size_t k = 0; k < 4; ++k) {
		Logger & l = Logger::getLogger(names[k]);
		for (auto & s : seen) { Logger * p = s[k].load(std::memory_order_relaxed); vf::check(!p || p == &l, "P14/same-logger", "threads have different loggers for " + names[k]); }
	}
	vf::distinct(order);
	if (c < 3) vf::sample(confs[0].text + confs[1].text);
});

} // namespace
