//
// uri.cpp : monitors of URI splitting and path normalisation (P18), of the resources
// that URI texts name and of resolution between them (P19), and of URL decoding and
// media types (P26).
//
#include "unicode.hpp"

#include <boost/core/demangle.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/ByteReadResource.hpp>
#include <Balau/Resource/ByteWriteResource.hpp>
#include <Balau/Resource/Utf8To32ReadResource.hpp>
#include <Balau/Resource/Utf32To8WriteResource.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Resource/UriComponents.hpp>
#include <Balau/Resource/UriFromString.hpp>
#include <Balau/Resource/UriResolve.hpp>
#include <Balau/Network/Utilities/UrlDecode.hpp>
#include <Balau/Network/Utilities/MimeTypes.hpp>
#include <regex>

using namespace Balau;
using Resource::UriComponents;
using vf::show;

// ------------------------------------------------------------------ P18

struct Parts {
	std::string scheme, user, host, path, query, fragment, portText;
	bool authority = false, hasUser = false, hasPort = false, hasQuery = false, hasFragment = false;
	unsigned port = 0;
	std::string text() const {
		return scheme + ":" + (authority ? "//" + (hasUser ? user + "@" : "") + host + (hasPort ? ":" + portText : "") : "")
			+ path + (hasQuery ? "?" + query : "") + (hasFragment ? "#" + fragment : "");
	}
};

static void same(const UriComponents & u, const Parts & p, const std::string & what, bool judgeAuthority = true) {
	auto eq = [&] (const char * k, const std::string & got, const std::string & want) {
		vf::check(got == want, k, std::string(k) + " of " + what + " is " + show(got) + ", expected " + show(want));
	};
	auto is = [&] (const char * k, bool got, bool want) { vf::check(got == want, k, std::string(k) + " of " + what + " is " + (got ? "true" : "false")); };
	eq("scheme", std::string(u.scheme()), p.scheme);
	if (judgeAuthority) is("hasAuthority", u.hasAuthority(), p.authority);
	is("hasUserInfo", u.hasUserInfo(), p.hasUser);
	is("hasPort", u.hasPort(), p.hasPort);
	is("hasQuery", u.hasQuery(), p.hasQuery);
	is("hasFragment", u.hasFragment(), p.hasFragment);
	eq("userInfo", std::string(u.userInfo()), p.user);
	eq("host", std::string(u.host()), p.host);
	eq("path", std::string(u.path()), p.path);
	eq("query", std::string(u.query()), p.query);
	eq("fragment", std::string(u.fragment()), p.fragment);
	eq("pathQueryFragment", std::string(u.pathQueryFragment()), p.path + (p.hasQuery ? "?" + p.query : "") + (p.hasFragment ? "#" + p.fragment : ""));
	vf::check(u.port() == p.port, "port", "port of " + what + " is " + std::to_string(u.port()) + ", expected " + std::to_string(p.port));
	eq("text", u.getUri(), p.text());
	eq("printed", Resource::toString(u), p.text());
}

static std::string from(vf::Rng & r, const char * alphabet, size_t lo, size_t hi, bool unicode = false) {
	std::string s;
	const size_t n = (size_t) r.range((int64_t) lo, (int64_t) hi), k = strlen(alphabet);
	for (size_t m = 0; m < n; ++m) {
		if (unicode && r.chance(1, 12)) uni::put(s, uni::anyCodePoint(r)); else s += alphabet[r.below(k)];
	}
	return s;
}
static const char * const LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
static const char * const SCHEME = "abcxyzABCXYZ019+-.";
static const char * const UNRESERVED = "abcXYZ019-._~%20!$&'()*+,;=";

static bool problematic(const std::string & s) { // code points that delimit components
	return s.find_first_of(":/?#@[]") != std::string::npos;
}

static Parts generate(vf::Rng & r) {
	Parts p;
	p.scheme = from(r, LETTERS, 1, 1) + from(r, SCHEME, 0, 6);
	p.authority = r.chance(3, 4);
	if (p.authority) {
		if (r.chance(1, 5)) p.host = "[" + from(r, "0123456789abcdef:", 2, 20) + "]";
		else { p.host = from(r, UNRESERVED, 1, 12, true); if (problematic(p.host)) p.host = "host"; }
		p.hasUser = r.chance(1, 3);
		if (p.hasUser) { p.user = from(r, UNRESERVED, r.chance(1, 10) ? 0 : 1, 8, true); if (problematic(p.user)) p.user = "u"; }
		p.hasPort = r.chance(1, 3);
		if (p.hasPort) {
			p.port = (unsigned) (r.chance(1, 4) ? r.of<int64_t>({ 0, 1, 80, 9, 65535, 65534, 10000 }) : r.range(0, 65535));
			p.portText = std::string(r.chance(1, 6) ? r.below(3) : 0, '0') + std::to_string(p.port);
			if (r.chance(1, 20)) { p.portText = ""; p.port = 0; }
		}
		if (!p.hasUser && !p.hasPort && r.chance(1, 8)) p.host = "";
		if (p.host.empty()) p.path = "/";
		if (r.chance(5, 6)) p.path = "/" + from(r, "abc/:@.%20-_~[]()", 0, 20, true);
	} else {
		p.path = from(r, "abc/:@.%20-_~", 0, 20, true);
		while (p.path.compare(0, 2, "//") == 0) p.path.erase(0, 1);
	}
	for (char c : { '?', '#' }) for (size_t m; (m = p.path.find(c)) != std::string::npos;) p.path.erase(m, 1);
	p.hasQuery = r.chance(1, 2);
	if (p.hasQuery) {
		p.query = from(r, "abc=&/:?@%20+;", 0, 14, true);
		for (size_t m; (m = p.query.find('#')) != std::string::npos;) p.query.erase(m, 1);
	}
	p.hasFragment = r.chance(1, 2);
	if (p.hasFragment) p.fragment = from(r, "abc=&/:?@%20+;", 0, 14, true);
	return p;
}

static bool refused(const std::string & text, std::unique_ptr<UriComponents> * out = nullptr) {
	try {
		auto u = std::make_unique<UriComponents>(std::string(text.data(), text.size()));
		if (out) *out = std::move(u);
		return false;
	} catch (const Exception::InvalidUriException &) {
		return true;
	}
}

static void generated(int64_t c, vf::Rng & r) {
	Parts p = generate(r);
	const std::string text = p.text();
	vf::distinct(text);
	if (c % 20000 == 0) vf::sample(show(text));
	std::unique_ptr<UriComponents> u;
	if (!vf::check(!refused(text, &u), "valid-uri-refused", show(text))) return;
	vf::count("valid URIs split");
	same(*u, p, show(text));
	// Copies and moves keep the components.
	UriComponents copy(*u);
	same(copy, p, "a copy of " + show(text));
	vf::check(copy == *u, "equality", "a copy of " + show(text) + " is not equal to it");
	Parts p2 = generate(r);
	UriComponents other(p2.text());
	other = *u;
	same(other, p, "an assigned copy of " + show(text));
	UriComponents moved(std::move(copy));
	same(moved, p, "a moved " + show(text));
	UriComponents other2(p2.text());
	vf::check((other2 == moved) == (p2.text() == text), "equality", show(p2.text()) + " compared with " + show(text));
	other2 = std::move(moved);
	same(other2, p, "a move assigned " + show(text));
	// A printed URI splits in the same way.
	same(UriComponents(Resource::toString(other2)), p, "printed " + show(text));

	// Changes that the definition refuses.
	Parts bad = p;
	switch (r.below(9)) {
		case 0: bad.scheme = from(r, "0123456789+-.%$/?#@ ", 1, 1) + from(r, SCHEME, 0, 4); break;
		case 1: bad.scheme += from(r, "%_$&!~*'()=;, \"<>|", 1, 1); break;
		case 2: bad.scheme = ""; break;
		case 3: bad.authority = bad.hasPort = true; bad.host = "h"; bad.portText = std::to_string(r.chance(1, 2) ? r.range(65536, 70000) : r.range(65536, INT64_MAX - 1)); if (!bad.path.empty() && bad.path[0] != '/') bad.path = "/"; break;
		case 4: bad.authority = bad.hasPort = true; bad.host = "h"; bad.portText = std::to_string(r.below(65536)); bad.portText.insert(r.below(bad.portText.size() + 1), r.of({ "a", "-", "+", " ", ".", "x", ":" })); if (!bad.path.empty() && bad.path[0] != '/') bad.path = "/"; break;
		case 5: bad.authority = bad.hasUser = true; bad.host = "h"; bad.user = "user:password"; if (!bad.path.empty() && bad.path[0] != '/') bad.path = "/"; break;
		case 6: bad.authority = true; bad.host = ""; if (r.chance(1, 2)) { bad.hasUser = true; if (bad.user.empty()) bad.user = "u"; } else { bad.hasPort = true; bad.portText = "80"; bad.hasUser = false; } if (!bad.path.empty() && bad.path[0] != '/') bad.path = "/"; break;
		case 7: bad.fragment += std::string((size_t) (INT16_MAX + 1 + r.below(40000)), 'x'); bad.hasFragment = true; break;
		default: {
			// Without any colon there is no scheme.
			std::string t = text;
			for (size_t m; (m = t.find(':')) != std::string::npos;) t.erase(m, 1);
			vf::check(refused(t), "scheme-less-accepted", show(t));
			vf::count("invalid URIs refused");
			return;
		}
	}
	vf::check(refused(bad.text()), "invalid-uri-accepted", show(bad.text()));
	vf::count("invalid URIs refused");
}

// Reference splitting of any text, after RFC 3986 appendix B.
static void hostileUri(int64_t c, vf::Rng & r) {
	std::string text;
	if (r.chance(1, 4)) {
		text = uni::hostile(r, 12);
		if (r.chance(1, 2)) text = "s:" + text; else if (r.chance(1, 2)) text = "s://" + text;
	} else {
		text = generate(r).text();
		for (uint64_t n = r.range(1, 3); n; --n) {
			const size_t m = r.below(text.size() + 1);
			switch (r.below(4)) {
				case 0: text.erase(m, r.range(1, 3)); break;
				case 1: text.insert(m, 1, (char) r.below(256)); break;
				case 2: text.insert(m, r.of({ ":", "/", "//", "?", "#", "@", "[", "]", "%", "://", ":@", "\xC3", "\xF0\x9F" })); break;
				default: if (m < text.size()) text[m] = (char) r.below(256); break;
			}
		}
	}
	vf::distinct(text);
	std::unique_ptr<UriComponents> u;
	{
		const uni::Exact e(text);
		const bool no = refused(std::string(std::string_view(e)), &u);
		vf::count(no ? "hostile texts refused" : "hostile texts accepted");
	}
	if (c % 20000 == 0) vf::sample(show(text) + (u ? " accepted" : " refused"));
	if (text.empty()) vf::check(!u, "empty-accepted", "empty text");
	if (!text.empty() && (unsigned char) text[0] < 0x80 && !isalpha(text[0])) vf::check(!u, "bad-first-accepted", show(text));
	if (!u) return;
	// All views lie in the text and are laid out in order.
	vf::check(u->getUri() == text, "text", "text of " + show(text) + " is " + show(u->getUri()));
	const char * b = u->getUri().data(), * e = b + u->getUri().size();
	for (auto v : { u->scheme(), u->userInfo(), u->host(), u->path(), u->query(), u->fragment(), u->pathQueryFragment() }) {
		vf::check(v.empty() || (v.data() >= b && v.data() + v.size() <= e), "view-outside", "a component of " + show(text) + " lies outside the text");
	}
	static const std::regex rfc("^([^:/?#]+):(//([^/?#]*))?([^?#]*)(\\?([^#]*))?(#([\\s\\S]*))?$", std::regex::ECMAScript);
	std::smatch m;
	if (text.find('[') != std::string::npos || text.find('\n') != std::string::npos || text.find('\r') != std::string::npos) return;
	if (!vf::check(std::regex_match(text, m, rfc), "not-a-uri-accepted", show(text))) return;
	Parts p;
	p.scheme = m[1];
	p.authority = m[2].matched;
	std::string a = m[3];
	if (std::count(a.begin(), a.end(), '@') > 1) return;
	if (auto at = a.find('@'); at != std::string::npos) { p.hasUser = true; p.user = a.substr(0, at); a = a.substr(at + 1); }
	if (auto colon = a.find(':'); colon != std::string::npos) {
		p.hasPort = true;
		p.portText = a.substr(colon + 1);
		p.port = (unsigned) strtoul(p.portText.c_str(), nullptr, 10);
		a = a.substr(0, colon);
		vf::check(p.portText.find_first_not_of("0123456789") == std::string::npos, "bad-port-accepted", show(text));
	}
	p.host = a;
	p.path = m[4];
	p.hasQuery = m[5].matched; p.query = m[6];
	p.hasFragment = m[7].matched; p.fragment = m[8];
	same(*u, p, show(text), !(p.authority && m[3].length() == 0));
	vf::count("hostile texts compared with the generic grammar");
}

static void normalize(int64_t, vf::Rng & r) {
	std::string path;
	const int n = (int) r.below(9);
	if (r.chance(1, 2)) path = "/";
	for (int m = 0; m < n; ++m) {
		if (m) path += r.chance(1, 8) ? "//" : "/";
		path += r.of<std::string>({ ".", "..", "a", "b", "..", "...", "a.b", ".a", "..a", "\xC3\xA9" });
	}
	if (r.chance(1, 4)) path += "/";
	vf::distinct(path);
	std::vector<std::string> out;
	std::string part;
	auto take = [&] {
		if (part.empty() || part == ".") {}
		else if (part == ".." && !out.empty() && out.back() != "..") out.pop_back();
		else out.push_back(part);
		part.clear();
	};
	for (char ch : path) if (ch == '/') take(); else part += ch;
	take();
	std::string want = !path.empty() && path[0] == '/' ? "/" : "";
	for (size_t m = 0; m < out.size(); ++m) want += (m ? "/" : "") + out[m];
	const uni::Exact e(path);
	const std::string got = UriComponents::normalizePath(e);
	vf::check(got == want, "normalized-path", show(path) + " gave " + show(got) + ", expected " + show(want));
	vf::check(UriComponents::normalizePath(got) == got, "normalized-twice", show(got));
	vf::count("paths normalised");
}
static vf::Mode m1("generated", generated), m2("hostile", hostileUri), m3("normalize", normalize);

// ------------------------------------------------------------------ P26

static int hexValue(unsigned char c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
// The documented rule; false when an error is to be thrown.
static bool refDecode(const std::string & s, bool validate, bool throwing, std::string & out) {
	out.clear();
	for (size_t m = 0; m < s.size();) {
		if (s[m] == '+') { out += ' '; ++m; continue; }
		if (s[m] != '%') { out += s[m++]; continue; }
		std::string run;
		while (m < s.size() && s[m] == '%') {
			const std::string two = s.substr(m + 1, 2);
			m += 1 + two.size();
			if (two.size() == 2 && hexValue((unsigned char) two[0]) >= 0 && hexValue((unsigned char) two[1]) >= 0) run += (char) (hexValue((unsigned char) two[0]) * 16 + hexValue((unsigned char) two[1]));
			else if (throwing) return false;
		}
		if (!validate || uni::valid(run)) out += run;
		else if (throwing) return false;
	}
	return true;
}
static std::string encoded(vf::Rng & r, bool clean) {
	std::string s;
	for (uint64_t n = r.below(8); n; --n) {
		switch (r.below(clean ? 5 : 9)) {
			case 0: s += '+'; break;
			case 1: case 2: { // an encoded character
				std::string u;
				uni::put(u, uni::anyCodePoint(r));
				char b[4];
				for (unsigned char ch : u) { snprintf(b, sizeof b, r.chance(1, 2) ? "%%%02x" : "%%%02X", ch); s += b; }
				break;
			}
			case 3: case 4: s += from(r, "abcXYZ019-._~", 1, 3); break;
			case 5: { char b[4]; snprintf(b, sizeof b, "%%%02X", (unsigned) r.below(256)); s += b; break; }
			case 6: s += "%" + from(r, "0123456789abcdefABCDEFgG%+-x ", 0, 2); break;
			case 7: s += (char) r.below(256); break;
			default: s += r.of({ "%", "%%", "%4", "&", "=" }); break;
		}
	}
	return s;
}
static void decode(int64_t c, vf::Rng & r) {
	const std::string s = encoded(r, r.chance(1, 3));
	const bool validate = r.chance(2, 3), throwing = r.chance(1, 2);
	vf::distinct(s + (validate ? "v" : "") + (throwing ? "t" : ""));
	const uni::Exact e(s);
	std::string want, got;
	const bool ok = refDecode(s, validate, throwing, want);
	const std::string what = show(s) + (validate ? " validated" : "") + (throwing ? " throwing" : "");
	if (c % 40000 == 0) vf::sample(what);
	try {
		got = Network::UrlDecode::decode(e, validate, throwing);
		vf::check(ok, "malformed-accepted", what + " gave " + show(got));
		if (ok) vf::check(got == want, "decoded-text", what + " gave " + show(got) + ", expected " + show(want));
		vf::count("texts decoded");
	} catch (const Exception::NetworkException &) {
		vf::check(!ok, "well-formed-refused", what);
		vf::count("texts refused");
	}
	// Every text, encoded byte by byte, comes back.
	const std::string raw = uni::hostile(r, 8);
	std::string all;
	char b[4];
	for (unsigned char ch : raw) { snprintf(b, sizeof b, "%%%02x", ch); all += b; }
	got = Network::UrlDecode::decode(all, false, true);
	vf::check(got == raw, "encoded-bytes", show(all) + " gave " + show(got));
}
static void parameters(int64_t, vf::Rng & r) {
	std::string s;
	std::vector<std::pair<std::string, std::string>> raw;
	bool valid = true, clean = true;
	for (uint64_t n = r.below(5), m = 0; m < n; ++m) {
		std::string k = encoded(r, true), v = encoded(r, true);
		k = "k" + std::to_string(m) + k;
		s += (m ? "&" : "") + k;
		if (v.empty()) { if (r.chance(1, 2)) s += "="; } else s += "=" + v;
		if (!v.empty() && r.chance(1, 12)) { s += "=" + from(r, "ab", 1, 2); valid = false; }
		raw.emplace_back(k, v);
	}
	(void) clean;
	vf::distinct(s);
	const uni::Exact e(s);
	try {
		auto got = Network::UrlDecode::split(e);
		vf::check(valid, "bad-parameters-accepted", show(s));
		if (!valid) return;
		bool ok = got.size() == raw.size();
		for (auto & kv : raw) { auto i = got.find(kv.first); ok = ok && i != got.end() && i->second == kv.second; }
		vf::check(ok, "split-parameters", show(s));
		auto dec = Network::UrlDecode::splitAndDecode(std::string_view(e), r.chance(1, 2), r.chance(1, 2));
		ok = dec.size() == raw.size();
		for (auto & kv : raw) {
			std::string k, v;
			refDecode(kv.first, true, true, k);
			refDecode(kv.second, true, true, v);
			auto i = dec.find(k);
			ok = ok && i != dec.end() && i->second == v;
		}
		vf::check(ok, "decoded-parameters", show(s));
		vf::count("parameter lists split");
	} catch (const Exception::NetworkException &) {
		vf::check(!valid, "good-parameters-refused", show(s));
		vf::count("parameter lists refused");
	}
}
static void mime(int64_t, vf::Rng & r) {
	auto & types = *Network::MimeTypes::defaultMimeTypes;
	// A custom table, so that the rule is judged on any content.
	std::unordered_map<std::string, std::string> data = types.getData();
	for (uint64_t n = r.below(4); n; --n) data[from(r, "abcdef019", 1, 4)] = from(r, "abc/", 3, 8);
	const auto copy = data;
	Network::MimeTypes custom(std::move(data));
	for (int m = 0; m < 20; ++m) {
		std::string ext = r.chance(1, 2) ? from(r, "abcdefABCDEFhtmlpng019", 0, 4) : std::next(copy.begin(), (long) r.below(copy.size()))->first;
		std::string want;
		std::string lower = ext;
		for (char & ch : lower) ch = (char) tolower(ch);
		if (r.chance(1, 3)) for (char & ch : ext) if (r.chance(1, 2)) ch = (char) toupper(ch);
		if (auto i = copy.find(lower); i != copy.end()) want = i->second;
		std::string path = from(r, "ab/.x-_", 0, 12) + "." + ext;
		if (r.chance(1, 8)) { path = from(r, "abcz", 0, 6); want = ""; }
		vf::check(custom.lookup(path) == want, "media-type", "of " + show(path) + " is " + show(std::string(custom.lookup(path))) + ", expected " + show(want));
		vf::distinct(path);
		vf::count("media types looked up");
	}
	for (auto & kv : { std::make_pair("a/b.HTML", "text/html"), std::make_pair("x.tar.gz", "application/x-gzip"), std::make_pair("x.png", "image/png"), std::make_pair("noext", ""), std::make_pair("x.css", "text/css"), std::make_pair("d.js", "application/javascript"), std::make_pair("", ""), std::make_pair("a.", "") }) {
		vf::check(types.lookup(kv.first) == kv.second, "default-media-type", std::string("of ") + kv.first);
	}
}
static vf::Mode m4("decode", decode), m5("parameters", parameters), m6("mime", mime);

// ------------------------------------------------------------------ P19

using namespace Balau::Resource;
struct Kind : UriVisitor {
	std::string kind;
	void visit(const File &) override { kind = "File"; }
	void visit(const Http &) override { kind = "Http"; }
	void visit(const Https &) override { kind = "Https"; }
	void visit(const StringUri &) override { kind = "StringUri"; }
	void visit(const ZipEntry &) override { kind = "ZipEntry"; }
	void visit(const ZipFile &) override { kind = "ZipFile"; }
	void visit(const Uri &) override { kind = "Uri"; }
};
static std::string kindOf(const Uri & u) { Kind k; u.visit(k); return k.kind; }

static std::string filePath(vf::Rng & r) {
	std::string p = r.chance(1, 2) ? "/" : "";
	for (uint64_t n = r.range(1, 5), m = 0; m < n; ++m) {
		std::string e = r.chance(1, 10) ? ".." : r.chance(1, 12) ? "." : from(r, "abcXYZ019-_.~%+ =()", 1, 6) ;
		if (e == "." || e == "..") e = "x" + e;
		if (r.chance(1, 10)) uni::put(e, r.of<uint32_t>({ 0xE9, 0x4E2D, 0x1F600 }));
		p += (m ? "/" : "") + e;
	}
	return p;
}
static void kinds(int64_t c, vf::Rng & r) {
	std::string text, kind, raw;
	switch (r.below(6)) {
		case 0: { Parts p = generate(r); p.scheme = "http"; text = p.text(); kind = "Http"; raw = text; break; }
		case 1: { Parts p = generate(r); p.scheme = "https"; text = p.text(); kind = "Https"; raw = text; break; }
		default: {
			raw = filePath(r);
			kind = "File";
			if (r.chance(1, 4)) { raw += ".zip"; kind = "ZipFile"; }
			const bool absolute = raw[0] == '/';
			text = r.chance(1, 2) ? raw : absolute && r.chance(1, 2) ? "file://" + raw : "file:" + raw;
		}
	}
	vf::distinct(text);
	if (c % 5000 == 0) vf::sample(show(text) + " is a " + kind);
	const uni::Exact e(text);
	std::unique_ptr<Uri> u;
	std::shared_ptr<Uri> s;
	std::shared_ptr<const Uri> sc;
	fromString(u, e);
	fromString(s, e);
	fromString(sc, e);
	std::vector<std::pair<std::string, const Uri *>> all = { { "unique", u.get() }, { "shared", s.get() }, { "shared const", sc.get() } };
	auto clone = u->clone();
	auto clone2 = sc->cloneToShared();
	all.emplace_back("clone", clone.get());
	all.emplace_back("shared clone", clone2.get());
	for (auto & kv : all) {
		const std::string what = kv.first + " URI of " + show(text);
		vf::check(kindOf(*kv.second) == kind, "kind", what + " is a " + kindOf(*kv.second) + ", expected " + kind);
		vf::check(kv.second->toRawString() == raw, "raw-text", what + " is " + show(kv.second->toRawString()) + ", expected " + show(raw));
		vf::check(*kv.second == *u && *u == *kv.second, "equality", what);
		vf::check(kv.second->hashcode() == u->hashcode(), "hash", what);
		const std::string uriText = kind == "File" || kind == "ZipFile" ? "file://" + raw : raw;
		vf::check(kv.second->toUriString() == uriText, "uri-text", what + " is " + show(kv.second->toUriString()));
	}
	vf::count("URIs of kind " + kind);
	if (raw[0] == '/' || kind == "Http" || kind == "Https") { // The printed URI names the same resource.
		std::unique_ptr<Uri> again;
		fromString(again, u->toUriString());
		vf::check(*again == *u && again->hashcode() == u->hashcode() && kindOf(*again) == kind, "printed-uri", show(u->toUriString()));
	}
	// A different text is a different URI, and equality is consistent with the hash code.
	std::unique_ptr<Uri> other;
	std::string otherText = text;
	if (r.chance(1, 2)) otherText += "x";
	else if (kind == "File" || kind == "ZipFile") { auto m = otherText.rfind('/'); if (m != std::string::npos && m != 0 && otherText[m - 1] != '/') otherText.insert(m, "/"); }
	fromString(other, otherText);
	if (*other == *u) vf::check(other->hashcode() == u->hashcode(), "hash-of-equal", show(text) + " and " + show(otherText));
	if (otherText == text + "x") vf::check(!(*other == *u), "different-equal", show(text) + " and " + show(otherText));
}

static std::string join(const std::string & base, const std::string & rel) { return base + rel; }
static std::string httpRelative(const Parts & p, const std::string & rel) {
	Parts q = p;
	q.hasQuery = q.hasFragment = false;
	if (rel[0] == '/') q.path = rel;
	else q.path = join(p.path.empty() ? "/" : p.path.substr(0, p.path.rfind('/') + 1), rel);
	return q.text();
}
static boost::filesystem::path lexical(const std::string & p) { return boost::filesystem::path(p); }

static void resolve(int64_t c, vf::Rng & r) {
	static const std::string dir = [] {
		std::string d = vf::st().scratch + "/resolve." + std::to_string(getpid());
		boost::filesystem::create_directories(d + "/sub/deep");
		std::ofstream(d + "/file.txt") << "x";
		std::ofstream(d + "/sub/other.txt") << "x";
		return d;
	}();
	std::string rel = from(r, "abcXYZ019-_.~", 1, 6) + (r.chance(1, 2) ? "/" + from(r, "abc", 1, 4) : "");
	if (rel.find("..") != std::string::npos || rel[0] == '.') rel = "rel/x.txt";
	const std::string pad = r.chance(1, 6) ? " " : "";
	if (r.chance(1, 3)) { // URLs
		Parts p = generate(r);
		p.authority = true;
		if (p.host.empty() || p.host[0] == '[') p.host = "host.example";
		if (!p.path.empty() && p.path[0] != '/') p.path = "/" + p.path;
		p.scheme = r.of({ "http", "https" });
		std::unique_ptr<Uri> base;
		fromString(base, p.text());
		if (r.chance(1, 3)) rel = "/" + rel;
		auto got = UriResolve::resolve(*base, pad + rel + pad);
		const std::string want = httpRelative(p, rel);
		vf::distinct(p.text() + " " + rel);
		vf::check(got->toRawString() == want, "url-resolution", show(rel) + " from " + show(p.text()) + " gave " + show(got->toRawString()) + ", expected " + show(want));
		vf::check(kindOf(*got) == (p.scheme == "http" ? "Http" : "Https"), "resolved-kind", kindOf(*got));
		vf::count("relative URLs resolved");
		if (c % 5000 == 0) vf::sample(show(rel) + " from " + show(p.text()) + " is " + show(want));
		// Appending a component.
		auto app = base->append("comp");
		Parts q = p;
		q.path += "/comp";
		vf::check(app->toRawString() == q.text(), "url-append", show(p.text()) + " gave " + show(app->toRawString()) + ", expected " + show(q.text()));
		return;
	}
	// Files: from a directory or a file that exists, or from a path that does not.
	std::string base;
	bool isDir = false;
	switch (r.below(5)) {
		case 0: base = dir; isDir = true; break;
		case 1: base = dir + "/sub"; isDir = true; break;
		case 2: base = dir + "/file.txt"; break;
		case 3: base = dir + "/sub/other.txt"; break;
		default: base = filePath(r); if (boost::filesystem::is_directory(base)) return; break;
	}
	const auto basePath = isDir ? lexical(base) : lexical(base).parent_path();
	File file(base);
	std::string text;
	boost::filesystem::path want;
	std::string kind = "File";
	switch (r.below(7)) {
		case 0: text = rel; want = (basePath / rel).lexically_normal(); break;
		case 1: text = "../" + rel; want = (basePath / ".." / rel).lexically_normal(); break;
		case 2: text = "file:" + rel; want = (basePath / rel).lexically_normal(); break;
		case 3: text = "/" + rel; want = "/" + rel; break;
		case 4: text = "file:///" + rel; want = "/" + rel; break;
		case 5: text = r.of({ "", "file://" }); want = basePath; break;
		default: text = "http://host/" + rel; kind = "Http"; break;
	}
	vf::distinct(base + " " + text);
	vf::count("file paths resolved");
	std::unique_ptr<Uri> got;
	if (r.chance(1, 10)) {
		// Neither relative nor absolute.
		try {
			got = UriResolve::resolve(static_cast<const Uri &>(file), "file:/" + rel);
			vf::violation("bad-file-uri-accepted", "file:/" + rel + " gave " + got->toRawString());
		} catch (const Exception::IllegalArgumentException &) {}
		return;
	}
	got = UriResolve::resolve(static_cast<const Uri &>(file), pad + text + pad);
	const std::string what = show(text) + " from " + show(base);
	vf::check(kindOf(*got) == kind, "resolved-kind", what + " is a " + kindOf(*got));
	if (kind == "Http") vf::check(got->toRawString() == text, "other-scheme", what + " gave " + show(got->toRawString()));
	else vf::check(lexical(got->toRawString()) == want, "file-resolution", what + " gave " + show(got->toRawString()) + ", expected " + show(want.string()));
	// From a zip file.
	ZipFile zip { File(dir + "/sub/archive.zip") };
	auto z = UriResolve::resolve(static_cast<const Uri &>(zip), rel + ".zip");
	vf::check(kindOf(*z) == "ZipFile" && lexical(z->toRawString()) == lexical(dir + "/sub/" + rel + ".zip").lexically_normal(), "zip-resolution", rel + ".zip from archive.zip gave " + show(z->toRawString()));
	// From a string nothing but full URIs can be resolved.
	StringUri str("text");
	try {
		UriResolve::resolve(static_cast<const Uri &>(str), rel);
		vf::violation("string-resolution", "resolved " + show(rel) + " from a string");
	} catch (const Exception::IllegalArgumentException &) {}
	vf::check(UriResolve::resolve(static_cast<const Uri &>(str), "http://h/" + rel)->toRawString() == "http://h/" + rel, "string-resolution", rel);
}
static vf::Mode m7("kinds", kinds), m8("resolve", resolve);
