//
// lang.cpp : monitors of the hierarchical property parser (P09) and of the scanner
// framework (P10).
//
#include "vf.hpp"

#include <Balau/Lang/Property/PropertyParserService.hpp>
#include <Balau/Lang/Property/Util/PropertyAstToString.hpp>
#include <Balau/Resource/ByteWriteResource.hpp>
#include <Balau/Resource/Utf8To32ReadResource.hpp>
#include <Balau/Resource/Utf32To8WriteResource.hpp>
#include <Balau/Resource/StringUri.hpp>

using namespace Balau;
namespace LP = Balau::Lang::Property;
namespace AST = Balau::Lang::Property::AST;

// ------------------------------------------------------------------ text generation

static void putUtf8(std::string & s, uint32_t c) {
	if (c < 0x80) s += (char) c;
	else if (c < 0x800) { s += (char) (0xC0 | (c >> 6)); s += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char) (0xE0 | (c >> 12)); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
	else { s += (char) (0xF0 | (c >> 18)); s += (char) (0x80 | ((c >> 12) & 63)); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
}

static uint32_t ordinaryChar(vf::Rng & r) { // neither blank, line break, nor syntax
	switch (r.below(12)) {
		case 0: return r.of<uint32_t>({ '.', '-', '_', '/', '*', '"', '\'', '$', '%', '(', ';', ',', 'u', 'n', 't', 'r' });
		case 1: return r.of<uint32_t>({ 0xE9, 0x100, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF });
		case 2: return (uint32_t) r.range('0', '9');
		default: return (uint32_t) r.range('a', 'z');
	}
}
static bool isSyntax(uint32_t c) { return c && c < 128 && strchr(":=#!\\{}@", (int) c); }
static bool isBlankChar(uint32_t c) { return c == ' ' || c == '\t'; }

struct Doc {
	std::string lb;      // line break of this document
	std::string text;
	std::vector<std::string> expected;
	size_t continuations = 0, escapes = 0, nodes = 0;
};

static std::string blanks(vf::Rng & r, int max) {
	std::string s;
	for (int n = (int) r.below((uint64_t) max + 1); n; --n) s += r.chance(1, 3) ? '\t' : ' ';
	return s;
}

static std::vector<uint32_t> logical(vf::Rng & r, int min, int max) {
	std::vector<uint32_t> v;
	for (int n = (int) r.range(min, max); n; --n) {
		if (r.chance(1, 6)) v.push_back(r.of<uint32_t>({ ':', '=', '#', '!', '\\', '{', '}', '@' }));
		else if (r.chance(1, 8)) v.push_back(r.of<uint32_t>({ ' ', '\t' }));
		else v.push_back(ordinaryChar(r));
	}
	return v;
}

// The written form of a name or value.
static std::string encode(vf::Rng & r, Doc & d, const std::vector<uint32_t> & v, bool isName, bool continuations) {
	std::string s;
	for (size_t m = 0; m < v.size(); ++m) {
		const uint32_t c = v[m];
		bool escape = false;
		if (c == '\\' || c == '{' || c == '}' || c == '@') escape = true;
		else if (isSyntax(c)) escape = isName || m == 0 || r.chance(1, 2);
		else if (isBlankChar(c)) escape = isName || m == 0 || r.chance(1, 4);
		else if (r.chance(1, 16)) escape = true; // superfluous escape : the backslash is dropped
		if (m > 0 && continuations && r.chance(1, 10)) {
			if (isBlankChar(c)) escape = true;
			s += "\\" + d.lb + blanks(r, 3);
			++d.continuations;
			if (r.chance(1, 4)) { s += "\\" + d.lb + blanks(r, 2); ++d.continuations; }
		}
		if (escape) { s += '\\'; ++d.escapes; }
		putUtf8(s, c);
	}
	return s;
}
static std::string plain(const std::vector<uint32_t> & v) {
	std::string s;
	for (auto c : v) putUtf8(s, c);
	return s;
}
static std::string q(const std::string & s) { return vf::show(s, 100000); }

static void genNodes(vf::Rng & r, Doc & d, int depth, int maxNodes, const std::string & ind) {
	const int n = (int) r.below((uint64_t) maxNodes + 1);
	const bool continuations = d.lb != "\n\r";
	for (int m = 0; m < n; ++m) {
		++d.nodes;
		const std::string lead = blanks(r, 3);
		switch (r.below(depth < 5 ? 10 : 9)) {
			case 0: { // comment
				std::string t;
				for (int k = (int) r.below(12); k; --k) {
					if (r.chance(1, 4)) t += r.of<const char *>({ ":", "=", "#", "!", "{", "}", "@", " ", "\t", "\\a", "\\\\", "\\{", "\\ " });
					else putUtf8(t, ordinaryChar(r));
				}
				d.text += lead + (r.chance(1, 2) ? "#" : "!") + t + d.lb;
				d.expected.push_back(ind + "C " + q(t));
				break;
			}
			case 1: { // include
				std::string t;
				for (int k = (int) r.below(14); k; --k) {
					if (r.chance(1, 4)) t += r.of<const char *>({ ":", "/", "*", "**", "..", "=", "#", "!", " ", "{", "}", "@" });
					else putUtf8(t, ordinaryChar(r));
				}
				d.text += lead + "@" + t + d.lb;
				d.expected.push_back(ind + "I " + q(t));
				break;
			}
			case 2: // empty line
				d.text += lead + d.lb;
				d.expected.push_back(ind + "E");
				break;
			case 9: { // composite
				auto name = logical(r, 1, 8);
				const std::string raw = encode(r, d, name, true, continuations);
				d.text += lead + raw + r.of<const char *>({ "", " ", "\t ", " = ", ":", "=", " : " }) + "{" + d.lb;
				d.expected.push_back(ind + "P " + q(plain(name)) + " raw " + q(raw) + " {");
				genNodes(r, d, depth + 1, 4, ind + " ");
				d.text += blanks(r, 3) + "}" + d.lb;
				d.expected.push_back(ind + "}");
				break;
			}
			default: {
				auto name = logical(r, 1, 10);
				auto value = logical(r, 0, r.chance(1, 8) ? 120 : 14);
				const std::string rawName = encode(r, d, name, true, continuations);
				const std::string rawValue = encode(r, d, value, false, continuations);
				std::string sep = r.of<const char *>({ " = ", "=", ":", " : ", " ", "\t", "= ", " =", "  " });
				d.text += lead + rawName + sep + rawValue + d.lb;
				d.expected.push_back(ind + "V " + q(plain(name)) + " raw " + q(rawName) + " = " + q(plain(value)) + " raw " + q(rawValue));
				break;
			}
		}
	}
}

// ------------------------------------------------------------------ observation

struct Dumper : public LP::PropertyVisitor {
	std::vector<std::string> out;
	std::string ind;
	bool raw = true;

	void visit(LP::Payload & p, const AST::Properties & o) override {
		for (auto & n : o.getNodes()) n->visit(p, *this);
	}
	void visit(LP::Payload &, const AST::ValueProperty & o) override {
		std::string s = ind + "V " + q(AST::PropertyNode::normalise(o.getName()));
		if (raw) s += " raw " + q(std::string(o.getName()));
		s += " = " + q(AST::PropertyNode::normalise(o.getValue()));
		if (raw) s += " raw " + q(std::string(o.getValue()));
		out.push_back(s);
	}
	void visit(LP::Payload & p, const AST::CompositeProperty & o) override {
		std::string s = ind + "P " + q(AST::PropertyNode::normalise(o.getName()));
		if (raw) s += " raw " + q(std::string(o.getName()));
		out.push_back(s + " {");
		ind += " ";
		for (auto & n : o.getNodes()) n->visit(p, *this);
		ind.pop_back();
		out.push_back(ind + "}");
	}
	void visit(LP::Payload &, const AST::IncludePropertyNode & o) override { out.push_back(ind + "I " + q(std::string(o.getText()))); }
	void visit(LP::Payload &, const AST::CommentPropertyNode & o) override { out.push_back(ind + "C " + q(std::string(o.getText()))); }
	void visit(LP::Payload &, const AST::EmptyLinePropertyNode &) override { out.push_back(ind + "E"); }
};

static std::vector<std::string> dumpTree(const AST::Properties & p, bool raw = true) {
	Dumper d;
	d.raw = raw;
	
	std::ostringstream sink;
	AST::PropertyAstToStringPayload payload(sink);
	
	d.visit(payload, p);
	return d.out;
}

static std::string diff(const std::vector<std::string> & e, const std::vector<std::string> & g) {
	size_t m = 0;
	while (m < e.size() && m < g.size() && e[m] == g[m]) ++m;
	return "first difference at node " + std::to_string(m) + ": expected " + (m < e.size() ? e[m] : "end") + ", found " + (m < g.size() ? g[m] : "end");
}

// A buffer of exactly the right size, so that reads beyond it are seen.
static std::shared_ptr<Resource::Uri> uriOf(const std::string & text) {
	std::string t(text);
	t.shrink_to_fit();
	return std::shared_ptr<Resource::Uri>(new Resource::StringUri(std::move(t)));
}

static AST::Properties parseMoved(const std::string & text) {
	AST::Properties p = LP::PropertyParserService::parse(uriOf(text));
	AST::Properties p2 = std::move(p);
	return AST::Properties(std::move(p2));
}

static std::string printed(const AST::Properties & p) { return AST::toString(p); }

static vf::Mode parseMode("parse", [] (int64_t c, vf::Rng & r) {
	Doc d;
	d.lb = r.of<const char *>({ "\n", "\n", "\r\n", "\r" });
	genNodes(r, d, 0, c % 7 == 0 ? 1 : 9, "");
	if (!d.text.empty() && d.text.size() > d.lb.size() && !d.expected.empty() && d.expected.back().back() != 'E' && r.chance(1, 3)) {
		d.text.erase(d.text.size() - d.lb.size()); // no final line break
		vf::count("documents without final line break");
	}
	try {
		AST::Properties p = parseMoved(d.text);
		auto got = dumpTree(p);
		if (got != d.expected) {
			vf::violation("parse:tree", diff(d.expected, got) + "\ntext " + vf::show(d.text, 1500));
			return;
		}
		vf::check(p.getText() == d.text, "parse:text", "the tree's text is not the input text: " + vf::show(d.text, 600));
		// The same text gives equal nodes.
		AST::Properties again = parseMoved(d.text);
		bool same = again == p && again.getNodes().size() == p.getNodes().size();
		for (size_t m = 0; same && m < p.getNodes().size(); ++m) {
			same = *again.getNodes()[m] == *p.getNodes()[m];
			if (m && dynamic_cast<AST::CompositeProperty *>(p.getNodes()[m].get()) && *again.getNodes()[m - 1] == *p.getNodes()[m]) vf::violation("parse:equal", "different nodes compare equal: " + vf::show(d.text, 600));
		}
		vf::check(same, "parse:unequal", "nodes of the same text compare unequal: " + vf::show(d.text, 600));
		// Print, parse again.
		const std::string t2 = printed(p);
		AST::Properties p2 = parseMoved(t2);
		auto got2 = dumpTree(p2);
		if (got2 != d.expected) vf::violation("parse:print", diff(d.expected, got2) + "\ntext " + vf::show(d.text, 800) + "\nprinted " + vf::show(t2, 800));
		else if (printed(p2) != t2) vf::violation("parse:print-stable", "printing again differs: " + vf::show(t2, 1500));
		vf::count("well-formed documents");
		vf::count("nodes", d.nodes);
		vf::count("line continuations", d.continuations);
		vf::count("escapes", d.escapes);
		if (d.text.size() < 16) vf::count("texts shorter than a small string");
		if (d.nodes) vf::distinct(d.text);
		if (c < 3) vf::sample("document " + vf::show(d.text, 300));
	} catch (const std::exception & e) {
		vf::violation("parse:refused", std::string("a well-formed document was refused: ") + e.what() + "\ntext " + vf::show(d.text, 1500));
	}
});

static std::string hostileText(vf::Rng & r, bool validUtf8) {
	std::string s;
	const int kind = (int) r.below(4);
	if (kind < 2) {
		Doc d;
		d.lb = r.of<const char *>({ "\n", "\r\n", "\r", "\n\r" });
		genNodes(r, d, 0, 5, "");
		s = d.text;
	} else {
		for (int n = (int) r.below(kind == 2 ? 24 : 200); n; --n) {
			if (r.chance(1, 2)) s += r.of<const char *>({ "\\", "{", "}", "@", "#", "!", ":", "=", " ", "\t", "\n", "\r", "{\n", "}\n", "a {\n", "\\\n", "\\\r\n", "\"" });
			else putUtf8(s, ordinaryChar(r));
		}
	}
	for (int n = (int) r.below(4); n && !s.empty(); --n) {
		const size_t at = r.below(s.size());
		switch (r.below(5)) {
			case 0: s.erase(at, 1 + r.below(4)); break;
			case 1: s.insert(at, 1, "\\{}@#!:= \t\n\r\0a"[r.below(15)]); break;
			case 2: s.resize(at); break;
			case 3: s.insert(at, s.substr(r.below(s.size()), r.below(12))); break;
			default: if (!validUtf8) s[at] = (char) r.below(256); break;
		}
	}
	if (!validUtf8 && r.chance(1, 4)) s += r.of<const char *>({ "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xFF", "\xF8", "\x80", "\xED\xA0\x80", "\xC0\x80" });
	return s;
}

// Strict UTF-8 validity, decided independently.
static bool validUtf8(const std::string & s) {
	for (size_t m = 0; m < s.size();) {
		unsigned char a = (unsigned char) s[m];
		size_t n = a < 0x80 ? 1 : a >= 0xC2 && a <= 0xDF ? 2 : (a & 0xF0) == 0xE0 ? 3 : a >= 0xF0 && a <= 0xF4 ? 4 : 0;
		if (!n || m + n > s.size()) return false;
		uint32_t c = n == 1 ? a : a & (0xFF >> (n + 1));
		for (size_t k = 1; k < n; ++k) {
			if (((unsigned char) s[m + k] & 0xC0) != 0x80) return false;
			c = (c << 6) | ((unsigned char) s[m + k] & 63);
		}
		if ((n == 3 && (c < 0x800 || (c >= 0xD800 && c < 0xE000))) || (n == 4 && (c < 0x10000 || c > 0x10FFFF))) return false;
		m += n;
	}
	return true;
}

static vf::Mode hostileMode("hostile", [] (int64_t c, vf::Rng & r) {
	const std::string s = hostileText(r, false);
	const bool utf8 = validUtf8(s);
	vf::distinct(s);
	try {
		AST::Properties p = parseMoved(s);
		auto got = dumpTree(p);
		vf::count("hostile texts accepted");
		if (!utf8) vf::violation("hostile:invalid-utf8-accepted", "text that is not UTF-8 was accepted: " + vf::show(s, 600));
		else if (s.empty() || (s.back() != '\\' && s.find('\r') == std::string::npos)) {
			// What was understood survives being printed.
			const std::string t2 = printed(p);
			try {
				AST::Properties p2 = parseMoved(t2);
				auto got2 = dumpTree(p2, false), got1 = dumpTree(p, false);
				if (got1 != got2) vf::violation("hostile:print", diff(got1, got2) + "\ntext " + vf::show(s, 800) + "\nprinted " + vf::show(t2, 800));
			} catch (const Exception::SyntaxErrorException & e) {
				vf::violation("hostile:print-refused", std::string(e.what()) + "\ntext " + vf::show(s, 800) + "\nprinted " + vf::show(t2, 800));
			}
		}
	} catch (const Exception::SyntaxErrorException & e) {
		vf::count(utf8 ? "hostile texts refused" : "invalid UTF-8 texts refused");
		std::string what = e.what();
		(void) what;
	} catch (const std::exception & e) {
		vf::violation("hostile:wrong-exception", std::string("neither a tree nor a syntax error: ") + e.what() + "\ntext " + vf::show(s, 800));
	}
});

// ------------------------------------------------------------------ scanner

enum class Tok : unsigned char { Blank, LineBreak, CommentLine, CommentBlock, Word, Literal, Punct, EndOfFile };
static std::string toString(const Tok & t) { return std::to_string((int) t); }

// A scanner of the kind that the framework exists for: comment lines end with their
// line break, comment blocks may span lines, string literals may contain anything.
class VfScanner : public Balau::Lang::AbstractScanner<Tok> {
	public: VfScanner(std::shared_ptr<Resource::Uri> uri, bool blocks_) : AbstractScanner<Tok>(std::move(uri)), blocks(blocks_) {}
	private: bool blocks;
	private: Tok getNextToken() override {
		const char32_t eof = std::char_traits<char32_t>::eof();
		readNextChar();
		if (currentChar == eof) return Tok::EndOfFile;
		if (currentChar == U'\n' || currentChar == U'\r' || Balau::Character::isBlank(currentChar)) return createWhitespaceToken();
		if (currentChar == U'#') {
			while (currentChar != eof && currentChar != U'\n' && currentChar != U'\r') readNextChar();
			if (currentChar != eof) createLineBreakToken();
			return Tok::CommentLine;
		}
		if (currentChar == U'*' && blocks) {
			do { readNextChar(); } while (currentChar != eof && currentChar != U'*');
			return Tok::CommentBlock;
		}
		if (currentChar == U'"') {
			extractStringConstantDoubleQuotes();
			return Tok::Literal;
		}
		if (currentChar >= U'a' && currentChar <= U'z') {
			do { readNextChar(); } while (currentChar >= U'a' && currentChar <= U'z');
			putBackCurrentChar();
			return Tok::Word;
		}
		return Tok::Punct;
	}
};

// Position of an offset: lines end with LF, CR, CRLF or LFCR (longest match), columns are in bytes.
struct Positions {
	std::vector<std::pair<unsigned, unsigned>> at;
	explicit Positions(const std::string & s) {
		unsigned line = 1, col = 1;
		at.resize(s.size() + 1);
		for (size_t m = 0; m < s.size();) {
			at[m] = { line, col };
			if (s[m] == '\n' || s[m] == '\r') {
				if (m + 1 < s.size() && (s[m + 1] == '\n' || s[m + 1] == '\r') && s[m + 1] != s[m]) { at[m + 1] = { line, col + 1 }; m += 2; }
				else ++m;
				++line;
				col = 1;
			} else { ++m; ++col; }
		}
		at[s.size()] = { line, col };
	}
};

static std::string spanStr(const Lang::CodeSpan & s) {
	return std::to_string(s.start.line) + ":" + std::to_string(s.start.column) + "-" + std::to_string(s.end.line) + ":" + std::to_string(s.end.column);
}

template <typename T, typename Scan> static void scannerCase(vf::Rng & r, const std::string & text, Scan scan, bool splittable) {
	using namespace Balau::Lang;
	auto reference = ScannedTokens<T>(scan());
	ScannerApiScannedTokens<T> api(scan());
	RandomAccessScannedTokens<T> random(scan());

	// First walk: cover the text.
	struct Ref { T token; size_t from, to; };
	std::vector<Ref> refs;
	std::string covered;
	const size_t n = api.size();
	for (size_t m = 0; m < n; ++m) {
		auto t = api.get();
		if (t.token == T::EndOfFile) { refs.push_back({ t.token, covered.size(), covered.size() }); break; }
		refs.push_back({ t.token, covered.size(), covered.size() + t.text.size() });
		covered += std::string(t.text);
		if (t.text.empty()) { vf::violation("scanner:empty-token", "token without text in " + vf::show(text)); return; }
		api.consume();
	}
	if (refs.size() != n || refs.back().token != T::EndOfFile) { vf::violation("scanner:end", "tokens do not end with one end of file token: " + vf::show(text)); return; }
	if (covered != text) { vf::violation("scanner:cover", "the token texts do not join up to the text: " + vf::show(covered, 400) + " for " + vf::show(text, 400)); return; }
	vf::count("tokens", n);

	Positions pos(text);
	auto expectSpan = [&] (size_t i) {
		auto s = pos.at[refs[i].from], e = pos.at[refs[i].to];
		return std::to_string(s.first) + ":" + std::to_string(s.second) + "-" + std::to_string(e.first) + ":" + std::to_string(e.second);
	};
	(void) splittable;
	for (size_t m = 0; m < n; ++m) {
		const std::string e = expectSpan(m), g = spanStr(random.getCodeSpans()[m]);
		if (e != g) { vf::violation("scanner:random-access-span", "token " + std::to_string(m) + " of " + vf::show(text, 400) + " stands at " + e + ", reported " + g); return; }
		vf::count("spans compared");
	}
	{
		const size_t m = r.below(n);
		const std::string e = expectSpan(m), g = spanStr(RandomAccessScannedTokens<T>::determineCodeSpan(reference, (unsigned) m));
		if (e != g) vf::violation("scanner:determined-span", "token " + std::to_string(m) + " of " + vf::show(text, 400) + " stands at " + e + ", reported " + g);
		const std::string t(reference.getText((unsigned) m));
		if (t != text.substr(refs[m].from, refs[m].to - refs[m].from)) vf::violation("scanner:text", "getText of token " + std::to_string(m) + " is " + vf::show(t) + " in " + vf::show(text, 400));
	}

	// Random movements against an index into the token list.
	size_t at = n - 1;
	std::vector<WhitespaceMode> modes { WhitespaceMode::DoNotConsume };
	std::vector<std::pair<typename ScannerApiScannedTokens<T>::Marker, size_t>> marks;
	auto skips = [&] (size_t i) {
		const T t = refs[i].token;
		const bool b = t == T::Blank, l = t == T::LineBreak, k = t == T::CommentLine;
		switch (modes.back()) {
			case WhitespaceMode::ConsumeWhitespaceAndComments: return b || l || k;
			case WhitespaceMode::ConsumeWhitespace: return b || l;
			case WhitespaceMode::ConsumeBlanksAndComments: return b || k;
			case WhitespaceMode::ConsumeBlanks: return b;
			case WhitespaceMode::ConsumeLineBreaksAndComments: return l || k;
			case WhitespaceMode::ConsumeLineBreaks: return l;
			case WhitespaceMode::ConsumeComments: return k;
			default: return false;
		}
	};
	std::string trail;
	const int steps = 10 + (int) r.below(50);
	for (int s = 0; s < steps; ++s) {
		switch (r.below(11)) {
			case 0: case 1: case 2: api.consume(); if (at < n - 1) ++at; trail += 'c'; break;
			case 3: case 4:
				api.putBack();
				if (at > 0) --at;
				while (at > 0 && skips(at - 1)) --at;
				trail += 'p';
				break;
			case 5: marks.push_back({ api.mark(), at }); trail += 'm'; break;
			case 6:
				if (!marks.empty()) {
					auto & mk = marks[r.below(marks.size())];
					if (mk.second <= at) { api.putBack(mk.first); at = mk.second; trail += 'M'; vf::count("put back to mark"); }
					else {
						bool refused = false;
						try { api.putBack(mk.first); } catch (const Exception::IndexOutOfRangeException &) { refused = true; }
						vf::check(refused, "scanner:mark-ahead", "put back to a mark that lies ahead was not refused");
						trail += 'x';
					}
				}
				break;
			case 7:
				if (r.chance(1, 4)) { api.reset(); at = 0; modes = { WhitespaceMode::DoNotConsume }; trail += 'r'; vf::count("resets"); }
				break;
			case 8: {
				auto m = r.of<WhitespaceMode>({ WhitespaceMode::ConsumeWhitespaceAndComments, WhitespaceMode::ConsumeWhitespace, WhitespaceMode::ConsumeBlanksAndComments
					, WhitespaceMode::ConsumeBlanks, WhitespaceMode::ConsumeLineBreaksAndComments, WhitespaceMode::ConsumeLineBreaks, WhitespaceMode::ConsumeComments, WhitespaceMode::DoNotConsume });
				if (modes.size() > 1 && r.chance(1, 2)) { api.popWhitespaceMode(); modes.pop_back(); trail += 'o'; }
				else { api.pushWhitespaceMode(m); modes.push_back(m); trail += '0' + (int) m; }
				break;
			}
			case 9: {
				while (skips(at)) ++at;
				const T want = r.chance(1, 2) ? refs[at].token : refs[r.below(n)].token;
				bool refused = false;
				try { api.expect(want, "not expected"); }
				catch (const Exception::SyntaxErrorException &) { refused = true; }
				vf::check(refused == (want != refs[at].token), "scanner:expect", "expect at token " + std::to_string(at) + (refused ? " refused the token that is there" : " accepted another token") + " in " + vf::show(text, 300));
				if (!refused && at < n - 1) ++at;
				trail += refused ? 'E' : 'e';
				break;
			}
			default: break;
		}
		if (r.chance(2, 3)) {
			while (skips(at)) ++at;
			auto t = api.get();
			const std::string want = text.substr(refs[at].from, refs[at].to - refs[at].from), e = expectSpan(at), g = spanStr(t.codeSpan);
			if (t.token != refs[at].token || std::string(t.text) != want) {
				vf::violation("scanner:replay", "after " + trail + " token " + std::to_string(at) + " should be " + vf::show(want) + ", found " + vf::show(std::string(t.text)) + " in " + vf::show(text, 400));
				return;
			}
			if (e != g || spanStr(api.getCurrentCodeSpan()) != e) {
				vf::violation("scanner:span", "after " + trail + " token " + std::to_string(at) + " stands at " + e + ", reported " + g + " in " + vf::show(text, 400));
				return;
			}
			vf::check(api.currentIsBlank() == (t.token == T::Blank) && api.currentIsLineBreak() == (t.token == T::LineBreak) && api.currentIsWhitespace() == (t.token == T::Blank || t.token == T::LineBreak)
				, "scanner:is-blank", "currentIs... disagree with the token after " + trail);
			trail += 'g';
			vf::count("tokens read after movements");
		}
	}
	vf::distinct(text + trail);
}

static vf::Mode scanMode("scan", [] (int64_t c, vf::Rng & r) {
	std::string text;
	if (c % 2) {
		do { text = hostileText(r, true); } while (!validUtf8(text));
		auto uri = uriOf(text);
		scannerCase<LP::PropertyToken>(r, text, [&] { return LP::PropertyScanner(uri).scan(); }, true);
		vf::count("property texts scanned");
	} else {
		const bool blocks = r.chance(1, 3);
		for (int n = (int) r.below(40); n; --n) {
			switch (r.below(8)) {
				case 0: text += r.of<const char *>({ "\n", "\r\n", "\r", "\n\r", "\n\n" }); break;
				case 1: text += r.of<const char *>({ " ", "\t", "  " }); break;
				case 2: text += r.of<const char *>({ "#", "# c", "#foo\n", "#\n", "#bar\r\n", "#e\xC3\xA9\r" }); break;
				case 3: text += r.of<const char *>({ "*", "* a\n b *", "*\n\n*", "*x*", "*\r\na" }); break;
				case 4: text += r.of<const char *>({ "\"a\"", "\"\\\"\n\"", "\"\xE2\x82\xAC\n\nx\"", "\"\"" }); break;
				case 5: putUtf8(text, ordinaryChar(r)); break;
				default: text += r.of<const char *>({ "a", "word", "foo", "+" }); break;
			}
		}
		auto uri = uriOf(text);
		try {
			scannerCase<Tok>(r, text, [&] { return VfScanner(uri, blocks).scan(); }, false);
			vf::count("texts with comments and literals scanned");
		} catch (const Exception::SyntaxErrorException &) {
			vf::count("unterminated literals refused");
			// Only an unterminated literal is an error of this language.
			bool in = false, comment = false, block = false;
			for (size_t m = 0; m < text.size(); ++m) {
				const char ch = text[m];
				if (in) { if (ch == '\\') ++m; else if (ch == '"') in = false; }
				else if (comment) { if (ch == '\n' || ch == '\r') comment = false; }
				else if (block) { if (ch == '*') block = false; }
				else if (ch == '"') in = true;
				else if (ch == '#') comment = true;
				else if (ch == '*' && blocks) block = true;
			}
			vf::check(in, "scanner:refused", "a valid text was refused: " + vf::show(text, 400));
		}
	}
});
